//! The public operations as data: drawn by `draw`, executed by `exec`, and applied to the
//! reference models by `step`. Used by C01 (histories), C02 (faults) and the libFuzzer target.
use crate::elem::*;
use crate::engine::{Src, guard};
use crate::ledger::tick;
use crate::model::*;
use matreex::index::AsIndex;
use matreex::{Error, Index, Matrix, Order, WrappingIndex};

pub const SLOTS: usize = 3;
pub type Pool<E> = Vec<Matrix<E>>;
pub type Models = Vec<Model>;

pub fn code<T>(r: Result<T, Error>) -> u64 {
    match r {
        Ok(_) => 0,
        Err(Error::SizeOverflow) => 1,
        Err(Error::SizeMismatch) => 2,
        Err(Error::CapacityOverflow) => 3,
        Err(Error::LengthInconsistent) => 4,
        Err(Error::IndexOutOfBounds) => 5,
        Err(Error::SquareMatrixRequired) => 6,
        Err(Error::ShapeNotConformable) => 7,
    }
}
pub const PANIC: u64 = 50;

/// caller-defined index whose accessors are fault points
#[derive(Clone, Copy, Debug)]
pub struct TickIdx(pub usize, pub usize);
impl AsIndex for TickIdx {
    fn row(&self) -> usize {
        tick("index");
        self.0
    }
    fn col(&self) -> usize {
        tick("index");
        self.1
    }
}

/// caller-defined shape whose conversion is a fault point
pub struct TickShape(pub usize, pub usize);
impl From<TickShape> for matreex::Shape {
    fn from(s: TickShape) -> Self {
        tick("shape");
        matreex::Shape::new(s.0, s.1)
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    New { d: usize, cap: Option<usize> },
    Fill { d: usize, kind: u8, nr: usize, nc: usize, v: u64 },
    Rows { d: usize, kind: u8, rows: Vec<Vec<u64>> },
    Clone { a: usize, d: usize },
    CloneFrom { a: usize, d: usize },
    Transpose { a: usize },
    SwitchOrder { a: usize, rearrange: bool },
    SetOrder { a: usize, o: Order, rearrange: bool },
    Reshape { a: usize, nr: usize, nc: usize },
    Resize { a: usize, nr: usize, nc: usize },
    Shrink { a: usize, to: Option<usize> },
    Overwrite { a: usize, b: usize },
    Apply { a: usize, k: u64, par: bool },
    Clear { a: usize },
    Swap { a: usize, kind: u8, i: (usize, usize), j: (usize, usize) },
    SwapLines { a: usize, rows: bool, m: usize, n: usize },
    Write { a: usize, kind: u8, i: (usize, usize), v: u64 },
    IterWrite { a: usize, kind: u8, n: usize, rev: bool, take: usize, v: u64 },
    Map { a: usize, d: usize, kind: u8, k: u64 },
    Elementwise { a: usize, b: usize, d: usize, kind: u8, op: u8 },
    ElementwiseAssign { a: usize, b: usize, kind: u8, op: u8 },
    Operator { a: usize, b: usize, d: usize, kind: u8, op: u8 },
    OperatorAssign { a: usize, b: usize, op: u8, by_ref: bool },
    Mul { a: usize, b: usize, d: usize, kind: u8 },
    Scalar { a: usize, d: usize, kind: u8, v: u64 },
    ScalarAssign { a: usize, v: u64 },
    Neg { a: usize, d: usize, by_ref: bool },
    Consume { a: usize, kind: u8, front: usize, back: usize },
    Eq { a: usize, b: usize },
    Contains { a: usize, v: u64 },
    Fmt { a: usize, debug: bool },
    Read { a: usize, kind: u8, i: (usize, usize) },
    Views { a: usize },
    Swapped { a: usize, b: usize },
    DropSlot { a: usize },
}
pub const NOPS: usize = 35;

/// Limits of a draw.
#[derive(Clone, Copy)]
pub struct Lim {
    /// largest extent
    pub ext: usize,
    /// may use rayon
    pub par: bool,
    /// byte size of the element
    pub elem: usize,
    /// one drawn shape in this many is large (0: none)
    pub large: u64,
}

const SPECIALS: [usize; 4] = [usize::MAX, isize::MAX as usize, 1 << 63, 1 << 32];

fn near(src: &mut Src, n: usize) -> usize {
    // mostly valid, sometimes just outside, rarely extreme
    match src.idx(12) {
        10 => n + src.idx(2),
        11 => *src.pick(&SPECIALS),
        _ => {
            if n == 0 {
                0
            } else {
                src.idx(n)
            }
        }
    }
}

fn factor_pair(src: &mut Src, n: usize) -> (usize, usize) {
    if n == 0 {
        return if src.flip() { (0, src.idx(4)) } else { (src.idx(4), 0) };
    }
    let ds: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
    let d = *src.pick(&ds);
    (d, n / d)
}

pub fn draw(src: &mut Src, ms: &Models, lim: Lim, tag: u64) -> Op {
    let k = src.idx(NOPS);
    draw_kind(src, ms, lim, tag, k)
}

pub fn draw_kind(src: &mut Src, ms: &Models, lim: Lim, tag: u64, k: usize) -> Op {
    let a = src.idx(SLOTS);
    let m = &ms[a];
    let b = |src: &mut Src| src.idx(SLOTS);
    let shape = |src: &mut Src| draw_any_shape(src, lim.ext, lim.large);
    let byte = |src: &mut Src, n: u64| src.below(n) as u8;
    let arith = |src: &mut Src| *src.pick(&[b'+', b'-', b'*', b'/', b'%']);
    match k {
        0 => Op::New { d: a, cap: if src.flip() { Some(src.idx(9)) } else { None } },
        1 => {
            let kind = byte(src, 3);
            let (nr, nc) = shape(src);
            Op::Fill { d: a, kind, nr, nc, v: tag }
        }
        2 => {
            let kind = byte(src, ROW_KINDS as u64);
            let (mut r, mut c) = shape(src);
            if kind >= 6 {
                (r, c) = *src.pick(&[(2, 3), (3, 2), (1, 1), (0, 3), (2, 0), (1, 4)]);
            }
            let mut rows: Vec<Vec<u64>> = (0..r).map(|i| (0..c).map(|j| tag + (i * c + j) as u64).collect()).collect();
            if (2..6).contains(&kind) && r > 1 && src.chance(1, 6) {
                let i = src.idx(r);
                if src.flip() || rows[i].is_empty() { rows[i].push(tag + 90) } else { rows[i].pop().map(|_| ()).unwrap() }
            }
            Op::Rows { d: a, kind, rows }
        }
        3 => Op::Clone { a, d: b(src) },
        4 => Op::CloneFrom { a, d: b(src) },
        5 => Op::Transpose { a },
        6 => Op::SwitchOrder { a, rearrange: !src.flip() },
        7 => Op::SetOrder { a, o: draw_order(src), rearrange: !src.flip() },
        8 => {
            let (nr, nc) = match src.idx(6) {
                4 => shape(src),
                5 => (*src.pick(&SPECIALS), src.range(1, 3)),
                _ => factor_pair(src, m.size()),
            };
            Op::Reshape { a, nr, nc }
        }
        9 => {
            let (nr, nc) = match src.idx(10) {
                8 => (usize::MAX, src.range(2, 3)),
                9 if lim.elem > 0 => ((isize::MAX as usize) / lim.elem + 1 + src.idx(2), 1),
                _ => shape(src),
            };
            Op::Resize { a, nr, nc }
        }
        10 => Op::Shrink { a, to: if src.flip() { Some(src.idx(20)) } else { None } },
        11 => Op::Overwrite { a, b: b(src) },
        12 => Op::Apply { a, k: tag, par: lim.par && src.chance(1, 3) },
        13 => Op::Clear { a },
        14 => {
            let kind = byte(src, 5);
            let i = (near(src, m.nr), near(src, m.nc));
            let j = if src.chance(1, 5) { i } else { (near(src, m.nr), near(src, m.nc)) };
            Op::Swap { a, kind, i, j }
        }
        15 => {
            let rows = src.flip();
            let n = if rows { m.nr } else { m.nc };
            let x = near(src, n);
            let y = if src.chance(1, 5) { x } else { near(src, n) };
            Op::SwapLines { a, rows, m: x, n: y }
        }
        16 => Op::Write { a, kind: byte(src, 5), i: (near(src, m.nr), near(src, m.nc)), v: tag },
        17 => {
            let kind = byte(src, ITER_KINDS as u64);
            let n = if kind == 5 { near(src, m.nr) } else { near(src, m.nc) };
            Op::IterWrite { a, kind, n, rev: src.flip(), take: if src.chance(1, 3) { src.idx(7) } else { 1 << 20 }, v: tag }
        }
        18 => {
            let kind = byte(src, if lim.par { 4 } else { 2 });
            Op::Map { a, d: b(src), kind, k: tag }
        }
        19 => Op::Elementwise { a, b: b(src), d: b(src), kind: byte(src, 4), op: arith(src) },
        20 => Op::ElementwiseAssign { a, b: b(src), kind: byte(src, 2), op: arith(src) },
        21 => Op::Operator { a, b: b(src), d: b(src), kind: byte(src, 4), op: *src.pick(&[b'+', b'-']) },
        22 => Op::OperatorAssign { a, b: b(src), op: *src.pick(&[b'+', b'-']), by_ref: src.flip() },
        23 => {
            let b2 = b(src);
            let n = &ms[b2];
            let (d, kind) = (b(src), byte(src, 6));
            if m.nr.saturating_mul(n.nc).saturating_mul(m.nc.max(1)) > 300_000 {
                // too expensive
                return Op::Eq { a, b: b2 };
            }
            Op::Mul { a, b: b2, d, kind }
        }
        24 => Op::Scalar { a, d: b(src), kind: byte(src, 2), v: tag },
        25 => Op::ScalarAssign { a, v: tag },
        26 => Op::Neg { a, d: b(src), by_ref: src.flip() },
        27 => Op::Consume { a, kind: byte(src, if lim.par { 4 } else { 2 }), front: src.idx(8), back: src.idx(4) },
        28 => Op::Eq { a, b: b(src) },
        29 => {
            let v = if m.size() > 0 && src.flip() { m.d[src.idx(m.size())] } else { tag };
            Op::Contains { a, v }
        }
        30 => Op::Fmt { a, debug: src.flip() },
        31 => Op::Read { a, kind: byte(src, 4), i: (near(src, m.nr), near(src, m.nc)) },
        32 => Op::Views { a },
        33 => Op::Swapped { a, b: b(src) },
        _ => Op::DropSlot { a },
    }
}

pub const ROW_KINDS: usize = 10;
pub const ITER_KINDS: usize = 8;

// ------------------------------------------------------------------ execution

struct TickIter<I>(I);
impl<I: Iterator> Iterator for TickIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick("iterator");
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

fn elems<E: Elem>(vs: &[u64]) -> Vec<E> {
    vs.iter().map(|&v| E::mk(E::norm(v))).collect()
}

fn arrays<E: Elem, const C: usize>(rows: &[Vec<u64>]) -> Vec<[E; C]> {
    rows.iter().map(|r| std::array::from_fn(|j| E::mk(E::norm(r[j])))).collect()
}
fn array_of_vecs<E: Elem, const N: usize>(rows: &[Vec<u64>]) -> [Vec<E>; N] {
    std::array::from_fn(|i| elems(&rows[i]))
}
fn nested<E: Elem, const R: usize, const C: usize>(rows: &[Vec<u64>]) -> [[E; C]; R] {
    std::array::from_fn(|i| std::array::from_fn(|j| E::mk(E::norm(rows[i][j]))))
}

fn from_rows<E: Elem>(kind: u8, rows: &[Vec<u64>]) -> Result<Matrix<E>, Error> {
    let vecs = || -> Vec<Vec<E>> { rows.iter().map(|r| elems(r)).collect() };
    match kind {
        0 => Ok(Matrix::from_row(elems::<E>(&rows.concat()))),
        1 => Ok(Matrix::from_col(elems::<E>(&rows.concat()))),
        2 => Matrix::try_from(vecs()),
        3 => {
            let v = vecs();
            Matrix::try_from(v.as_slice())
        }
        4 => {
            let v = vecs();
            match guard(move || TickIter(v.into_iter().map(|r| TickIter(r.into_iter()))).collect::<Matrix<E>>()) {
                Ok(m) => Ok(m),
                // FromIterator reports ragged rows by panicking
                Err(p) if p == crate::ledger::FAULT_MSG => std::panic::panic_any(crate::ledger::FAULT_MSG),
                Err(_) => Err(Error::LengthInconsistent),
            }
        }
        5 => match rows.len() {
            0 => Matrix::try_from(array_of_vecs::<E, 0>(rows)),
            1 => Matrix::try_from(array_of_vecs::<E, 1>(rows)),
            2 => Matrix::try_from(array_of_vecs::<E, 2>(rows)),
            3 => Matrix::try_from(array_of_vecs::<E, 3>(rows)),
            4 => Matrix::try_from(array_of_vecs::<E, 4>(rows)),
            _ => Matrix::try_from(vecs()),
        },
        6 | 7 => {
            let c = rows.first().map_or(3, |r| r.len());
            let by_slice = kind == 7;
            macro_rules! go {
                ($c:literal) => {{
                    let v = arrays::<E, $c>(rows);
                    Ok(if by_slice { Matrix::from(v.as_slice()) } else { Matrix::from(v) })
                }};
            }
            match c {
                0 => go!(0),
                1 => go!(1),
                2 => go!(2),
                3 => go!(3),
                _ => go!(4),
            }
        }
        _ => Ok(match (rows.len(), rows.first().map_or(3, |r| r.len())) {
            (2, 3) => Matrix::from(nested::<E, 2, 3>(rows)),
            (3, 2) => Matrix::from(nested::<E, 3, 2>(rows)),
            (1, 1) => Matrix::from(nested::<E, 1, 1>(rows)),
            (0, 3) => Matrix::from(nested::<E, 0, 3>(rows)),
            (2, 0) => Matrix::from(nested::<E, 2, 0>(rows)),
            (1, 4) if kind == 8 => Matrix::from(nested::<E, 1, 4>(rows)),
            _ => {
                let v = elems::<E>(&rows.concat());
                std::iter::once(v).collect()
            }
        }),
    }
}

fn store<E: Elem>(p: &mut Pool<E>, d: usize, r: Result<Matrix<E>, Error>, obs: &mut Vec<u64>) {
    match r {
        Ok(m) => {
            obs.push(0);
            p[d] = m;
        }
        Err(e) => obs.push(code::<()>(Err(e))),
    }
}

fn bin<E: Elem>(op: u8, a: &E, b: &E) -> E {
    tick("closure");
    E::mk(E::norm(opv(op, a.val(), b.val())))
}

/// `Err(PANIC)`-style: an expected panic is observed as the code, an injected one goes on.
fn expect_panics<T>(f: impl FnOnce() -> T) -> Result<T, u64> {
    match guard(f) {
        Ok(v) => Ok(v),
        Err(p) if p == crate::ledger::FAULT_MSG => std::panic::panic_any(crate::ledger::FAULT_MSG),
        Err(_) => Err(PANIC),
    }
}

pub fn exec<E: Elem>(op: &Op, p: &mut Pool<E>) -> Vec<u64> {
    let mut obs = vec![];
    let take = |p: &mut Pool<E>, a: usize| std::mem::take(&mut p[a]);
    match *op {
        Op::New { d, cap } => {
            let m = match cap {
                None => Matrix::new(),
                Some(c) => {
                    let m = Matrix::with_capacity(c);
                    obs.push((m.capacity() >= c) as u64);
                    m
                }
            };
            p[d] = m;
        }
        Op::Fill { d, kind, nr, nc, v } => {
            let r = match kind {
                0 => Matrix::with_default(TickShape(nr, nc)),
                1 => Matrix::with_value([nr, nc], E::mk(E::norm(v))),
                _ => Matrix::with_initializer((nr, nc), |i| {
                    tick("closure");
                    E::mk(E::norm(v + (i.row * 16 + i.col) as u64))
                }),
            };
            store(p, d, r, &mut obs);
        }
        Op::Rows { d, kind, ref rows } => {
            let r = from_rows::<E>(kind, rows);
            store(p, d, r, &mut obs);
        }
        Op::Clone { a, d } => {
            let m = p[a].clone();
            p[d] = m;
        }
        Op::CloneFrom { a, d } => {
            if a != d {
                let m = take(p, a);
                p[d].clone_from(&m);
                p[a] = m;
            }
        }
        Op::Transpose { a } => {
            p[a].transpose();
        }
        Op::SwitchOrder { a, rearrange } => {
            if rearrange {
                p[a].switch_order();
            } else {
                p[a].switch_order_without_rearrangement();
            }
        }
        Op::SetOrder { a, o, rearrange } => {
            if rearrange {
                p[a].set_order(o);
            } else {
                p[a].set_order_without_rearrangement(o);
            }
        }
        Op::Reshape { a, nr, nc } => obs.push(code(p[a].reshape(TickShape(nr, nc)))),
        Op::Resize { a, nr, nc } => obs.push(code(p[a].resize(TickShape(nr, nc)))),
        Op::Shrink { a, to } => {
            match to {
                None => p[a].shrink_to_fit(),
                Some(n) => p[a].shrink_to(n),
            };
        }
        Op::Overwrite { a, b } => {
            if a != b {
                let m = take(p, b);
                let r = guard(|| {
                    p[a].overwrite(&m);
                });
                p[b] = m;
                if r.is_err() {
                    std::panic::panic_any(crate::ledger::FAULT_MSG);
                }
            }
        }
        Op::Apply { a, k, par } => {
            let f = |e: &mut E| {
                tick("closure");
                let v = E::norm(mix(b'a', e.val(), k));
                e.set(v);
            };
            #[cfg(feature = "parallel")]
            if par {
                p[a].par_apply(f);
                return obs;
            }
            let _ = par;
            p[a].apply(f);
        }
        Op::Clear { a } => {
            p[a].clear();
        }
        Op::Swap { a, kind, i, j } => {
            let m = &mut p[a];
            let r = match kind {
                0 => m.swap(i, j),
                1 => m.swap(Index::new(i.0, i.1), [j.0, j.1]),
                2 => m.swap([i.0, i.1], Index::new(j.0, j.1)),
                3 => m.swap(TickIdx(i.0, i.1), TickIdx(j.0, j.1)),
                _ => m.swap(WrappingIndex::new(i.0 as isize, i.1 as isize), WrappingIndex::new(j.0 as isize, j.1 as isize)),
            };
            obs.push(code(r));
        }
        Op::SwapLines { a, rows, m, n } => obs.push(code(if rows { p[a].swap_rows(m, n) } else { p[a].swap_cols(m, n) })),
        Op::Write { a, kind, i, v } => {
            let m = &mut p[a];
            let e = E::mk(E::norm(v));
            let r = match kind {
                0 => m.get_mut(i).map(|x| *x = e).map_or_else(|e| code::<()>(Err(e)), |_| 0),
                1 => m.get_mut(TickIdx(i.0, i.1)).map(|x| *x = e).map_or_else(|e| code::<()>(Err(e)), |_| 0),
                2 => expect_panics(|| m[i] = e).map_or_else(|c| c, |_| 0),
                3 => expect_panics(|| m[TickIdx(i.0, i.1)] = e).map_or_else(|c| c, |_| 0),
                _ => expect_panics(|| m[WrappingIndex::new(i.0 as isize, i.1 as isize)] = e).map_or_else(|c| c, |_| 0),
            };
            obs.push(r);
        }
        Op::IterWrite { a, kind, n, rev, take, v } => {
            let m = &mut p[a];
            let mut left = take;
            let mut w = |e: &mut E| {
                if left > 0 {
                    left -= 1;
                    tick("closure");
                    let x = E::norm(mix(b'w', e.val(), v));
                    *e = E::mk(x);
                }
            };
            macro_rules! go {
                ($it:expr) => {
                    if rev { $it.rev().for_each(&mut w) } else { $it.for_each(&mut w) }
                };
            }
            match kind {
                0 => go!(m.iter_elements_mut()),
                1 => go!(m.iter_elements_mut_with_index().map(|(_, e)| e)),
                2 => go!(m.iter_rows_mut().flatten()),
                3 => go!(m.iter_cols_mut().flatten()),
                4 => {
                    // pairwise from both ends
                    let mut it = m.iter_rows_mut();
                    loop {
                        let f = if rev { it.next_back() } else { it.next() };
                        let Some(r) = f else { break };
                        go!(r);
                    }
                }
                5 => match m.iter_nth_row_mut(n) {
                    Ok(it) => go!(it),
                    Err(e) => obs.push(code::<()>(Err(e))),
                },
                6 => match m.iter_nth_col_mut(n) {
                    Ok(it) => go!(it),
                    Err(e) => obs.push(code::<()>(Err(e))),
                },
                _ => {
                    let mut it = m.iter_cols_mut();
                    while let Some(c) = if rev { it.next_back() } else { it.next() } {
                        go!(c);
                    }
                }
            }
        }
        Op::Map { a, d, kind, k } => {
            let f = |v: u64| {
                tick("closure");
                E::mk(E::norm(mix(b'm', v, k)))
            };
            let r = match kind {
                0 => take(p, a).map(|e| f(e.val())),
                1 => p[a].map_ref(|e| f(e.val())),
                #[cfg(feature = "parallel")]
                2 => take(p, a).par_map(|e| f(e.val())),
                #[cfg(feature = "parallel")]
                3 => p[a].par_map_ref(|e| f(e.val())),
                _ => unreachable!(),
            };
            store(p, d, r, &mut obs);
        }
        Op::Elementwise { a, b, d, kind, op } => {
            let r = match kind {
                0 => p[a].elementwise_operation(&p[b], |x, y| bin(op, x, y)),
                1 => {
                    // the consumed operand must not be the borrowed one
                    let l = p[a].clone();
                    l.elementwise_operation_consume_self(&p[b], |x, y| bin(op, &x, y))
                }
                2 => match op {
                    b'+' => p[a].elementwise_add(&p[b]),
                    b'-' => p[a].elementwise_sub(&p[b]),
                    b'*' => p[a].elementwise_mul(&p[b]),
                    b'/' => p[a].elementwise_div(&p[b]),
                    _ => p[a].elementwise_rem(&p[b]),
                },
                _ => {
                    let l = p[a].clone();
                    match op {
                        b'+' => l.elementwise_add_consume_self(&p[b]),
                        b'-' => l.elementwise_sub_consume_self(&p[b]),
                        b'*' => l.elementwise_mul_consume_self(&p[b]),
                        b'/' => l.elementwise_div_consume_self(&p[b]),
                        _ => l.elementwise_rem_consume_self(&p[b]),
                    }
                }
            };
            store(p, d, r, &mut obs);
        }
        Op::ElementwiseAssign { a, b, kind, op } => {
            let rhs = p[b].clone();
            let m = &mut p[a];
            let r = match (kind, op) {
                (0, _) => m.elementwise_operation_assign(&rhs, |x, y| {
                    let e = bin(op, x, y);
                    *x = e
                }),
                (_, b'+') => m.elementwise_add_assign(&rhs),
                (_, b'-') => m.elementwise_sub_assign(&rhs),
                (_, b'*') => m.elementwise_mul_assign(&rhs),
                (_, b'/') => m.elementwise_div_assign(&rhs),
                _ => m.elementwise_rem_assign(&rhs),
            };
            obs.push(code(r));
        }
        Op::Operator { a, b, d, kind, op } => {
            let plus = op == b'+';
            let r = match kind {
                0 => expect_panics(|| if plus { &p[a] + &p[b] } else { &p[a] - &p[b] }),
                1 => {
                    let l = p[a].clone();
                    expect_panics(|| if plus { l + &p[b] } else { l - &p[b] })
                }
                2 => {
                    let r = p[b].clone();
                    expect_panics(|| if plus { &p[a] + r } else { &p[a] - r })
                }
                _ => {
                    let (l, r) = (p[a].clone(), p[b].clone());
                    expect_panics(|| if plus { l + r } else { l - r })
                }
            };
            match r {
                Ok(m) => {
                    obs.push(0);
                    p[d] = m
                }
                Err(c) => obs.push(c),
            }
        }
        Op::OperatorAssign { a, b, op, by_ref } => {
            let rhs = p[b].clone();
            let m = &mut p[a];
            let r = expect_panics(|| match (op, by_ref) {
                (b'+', true) => *m += &rhs,
                (b'+', false) => *m += rhs,
                (_, true) => *m -= &rhs,
                (_, false) => *m -= rhs,
            });
            obs.push(r.map_or_else(|c| c, |_| 0));
        }
        Op::Mul { a, b, d, kind } => {
            let r: Result<Matrix<E>, u64> = match kind {
                0 => p[a].clone().multiply(p[b].clone()).map_err(|e| code::<()>(Err(e))),
                1 => p[a]
                    .clone()
                    .multiplication_like_operation(p[b].clone(), |l, r| {
                        tick("closure");
                        let s = l.iter().zip(r).fold(0u64, |s, (x, y)| E::norm(s.wrapping_add(E::norm(opv(b'*', x.val(), y.val())))));
                        E::mk(s)
                    })
                    .map_err(|e| code::<()>(Err(e))),
                2 => expect_panics(|| &p[a] * &p[b]),
                3 => {
                    let l = p[a].clone();
                    expect_panics(|| l * &p[b])
                }
                4 => {
                    let r = p[b].clone();
                    expect_panics(|| &p[a] * r)
                }
                _ => {
                    let (l, r) = (p[a].clone(), p[b].clone());
                    expect_panics(|| l * r)
                }
            };
            match r {
                Ok(m) => {
                    obs.push(0);
                    p[d] = m
                }
                Err(c) => obs.push(c),
            }
        }
        Op::Scalar { a, d, kind, v } => {
            let s = E::mk(E::norm(v));
            let r = match kind {
                0 => p[a].scalar_operation(&s, |x, y| bin(b's', x, y)),
                _ => take(p, a).scalar_operation_consume_self(&s, |x, y| bin(b's', &x, y)),
            };
            store(p, d, r, &mut obs);
        }
        Op::ScalarAssign { a, v } => {
            let s = E::mk(E::norm(v));
            p[a].scalar_operation_assign(&s, |x, y| {
                let e = bin(b's', x, y);
                *x = e
            });
        }
        Op::Neg { a, d, by_ref } => {
            let m = if by_ref { -&p[a] } else { -take(p, a) };
            p[d] = m;
        }
        Op::Consume { a, kind, front, back } => {
            let m = take(p, a);
            match kind {
                0 => {
                    let mut it = m.into_iter_elements();
                    for _ in 0..front {
                        obs.push(it.next().map_or(u64::MAX, |e| e.val()));
                    }
                    for _ in 0..back {
                        obs.push(it.next_back().map_or(u64::MAX, |e| e.val()));
                    }
                }
                1 => {
                    let mut it = m.into_iter_elements_with_index();
                    for _ in 0..front {
                        obs.push(it.next().map_or(u64::MAX, |(i, e)| mix(b'i', (i.row * 64 + i.col) as u64, e.val())));
                    }
                    for _ in 0..back {
                        obs.push(it.next_back().map_or(u64::MAX, |(i, e)| mix(b'i', (i.row * 64 + i.col) as u64, e.val())));
                    }
                }
                #[cfg(feature = "parallel")]
                2 => {
                    use matreex::parallel::*;
                    let mut v: Vec<u64> = m
                        .into_par_iter_elements()
                        .map(|e| {
                            tick("closure");
                            e.val()
                        })
                        .collect();
                    v.sort();
                    obs.append(&mut v);
                }
                #[cfg(feature = "parallel")]
                3 => {
                    use matreex::parallel::*;
                    let mut v: Vec<u64> = m
                        .into_par_iter_elements_with_index()
                        .map(|(i, e)| {
                            tick("closure");
                            mix(b'i', (i.row * 64 + i.col) as u64, e.val())
                        })
                        .collect();
                    v.sort();
                    obs.append(&mut v);
                }
                _ => unreachable!(),
            }
        }
        Op::Eq { a, b } => obs.push((p[a] == p[b]) as u64),
        Op::Contains { a, v } => {
            let e = E::mk(E::norm(v));
            obs.push(p[a].contains(&e) as u64)
        }
        Op::Fmt { a, debug } => {
            let s = if debug { format!("{:?}", p[a]) } else { format!("{}", p[a]) };
            obs.push((s.len() > 1) as u64);
        }
        Op::Read { a, kind, i } => {
            let m = &p[a];
            obs.push(match kind {
                0 => m.get(i).map_or_else(|e| code::<()>(Err(e)), |e| mix(0, e.val(), 0)),
                1 => m.get(TickIdx(i.0, i.1)).map_or_else(|e| code::<()>(Err(e)), |e| mix(0, e.val(), 0)),
                2 => expect_panics(|| m[TickIdx(i.0, i.1)].val()).map_or_else(|c| c, |v| mix(0, v, 0)),
                _ => m.get(WrappingIndex::new(i.0 as isize, i.1 as isize)).map_or_else(|e| code::<()>(Err(e)), |e| mix(0, e.val(), 0)),
            });
        }
        Op::Views { a } => {
            let m = &p[a];
            for r in m.iter_rows() {
                obs.push(r.len() as u64);
                obs.extend(r.map(|e| e.val()));
            }
            for c in m.iter_cols().rev() {
                obs.push(c.len() as u64);
                obs.extend(c.rev().map(|e| e.val()));
            }
        }
        Op::Swapped { a, b } => p.swap(a, b),
        Op::DropSlot { a } => p[a] = Matrix::default(),
    }
    obs
}

// ------------------------------------------------------------------ reference

fn too_big(nr: usize, nc: usize, elem: usize) -> Option<u64> {
    let n = nr as u128 * nc as u128;
    if n > usize::MAX as u128 {
        Some(1)
    } else if n * elem as u128 > isize::MAX as u128 {
        Some(3)
    } else {
        None
    }
}

fn logical_zip(a: &Model, b: &Model, f: impl Fn(u64, u64) -> u64) -> Option<Model> {
    if (a.nr, a.nc) != (b.nr, b.nc) {
        return None;
    }
    Some(Model { d: a.d.iter().zip(&b.d).map(|(&x, &y)| f(x, y)).collect(), ..a.clone() })
}

pub fn model_mul<E: Elem>(a: &Model, b: &Model) -> Option<Model> {
    if a.nc != b.nr {
        return None;
    }
    let mut d = vec![];
    for i in 0..a.nr {
        for j in 0..b.nc {
            d.push(if a.nc == 0 {
                E::default_val()
            } else {
                (0..a.nc).fold(0u64, |s, k| E::norm(s.wrapping_add(E::norm(opv(b'*', a.at(i, k), b.at(k, j))))))
            });
        }
    }
    Some(Model::new(a.order, a.nr, b.nc, d))
}

/// Applies `op` to the models; returns what must be observed.
pub fn step<E: Elem>(op: &Op, ms: &mut Models) -> Vec<u64> {
    let mut obs = vec![];
    let taken = |ms: &mut Models, a: usize| std::mem::replace(&mut ms[a], Model::empty());
    match *op {
        Op::New { d, cap } => {
            if cap.is_some() {
                obs.push(1)
            }
            ms[d] = Model::empty();
        }
        Op::Fill { d, kind, nr, nc, v } => {
            obs.push(0);
            let mut data = vec![];
            for r in 0..nr {
                for c in 0..nc {
                    data.push(match kind {
                        0 => E::default_val(),
                        1 => E::norm(v),
                        _ => E::norm(v + (r * 16 + c) as u64),
                    });
                }
            }
            ms[d] = Model::new(Order::default(), nr, nc, data);
        }
        Op::Rows { d, kind, ref rows } => {
            let flatd: Vec<u64> = rows.concat().iter().map(|&v| E::norm(v)).collect();
            let n = flatd.len();
            let c = rows.first().map_or(0, |r| r.len());
            if (2..6).contains(&kind) && rows.iter().any(|r| r.len() != c) {
                obs.push(4);
                return obs;
            }
            obs.push(0);
            let zc = if matches!(kind, 6 | 7) || kind >= 8 { 3 } else { 0 };
            ms[d] = match kind {
                0 => Model::new(Order::default(), 1, n, flatd),
                1 => Model::new(Order::default(), n, 1, flatd),
                9 if !matches!((rows.len(), c), (2, 3) | (3, 2) | (1, 1) | (2, 0)) && !(rows.is_empty()) => Model::new(Order::RowMajor, 1, n, flatd),
                _ if rows.is_empty() => Model::new(Order::RowMajor, 0, zc, vec![]),
                _ => Model::new(Order::RowMajor, rows.len(), c, flatd),
            };
        }
        Op::Clone { a, d } | Op::CloneFrom { a, d } => ms[d] = ms[a].clone(),
        Op::Transpose { a } => ms[a] = ms[a].transposed(),
        Op::SwitchOrder { a, rearrange } => {
            let m = &ms[a];
            let o = other(m.order);
            ms[a] = if rearrange { m.with_order(o) } else { m.transposed().with_order(o) };
        }
        Op::SetOrder { a, o, rearrange } => {
            let m = &ms[a];
            if o != m.order {
                ms[a] = if rearrange { m.with_order(o) } else { m.transposed().with_order(o) };
            }
        }
        Op::Reshape { a, nr, nc } => {
            let m = &ms[a];
            if nr as u128 * nc as u128 == m.size() as u128 {
                obs.push(0);
                ms[a] = Model::from_mem(m.order, nr, nc, &m.mem());
            } else {
                obs.push(2);
            }
        }
        Op::Resize { a, nr, nc } => match too_big(nr, nc, size_of::<E>()) {
            Some(c) => obs.push(c),
            None => {
                obs.push(0);
                let m = &ms[a];
                let mut mem = m.mem();
                mem.resize(nr * nc, E::default_val());
                ms[a] = Model::from_mem(m.order, nr, nc, &mem);
            }
        },
        Op::Shrink { .. } => {}
        Op::Overwrite { a, b } => {
            let s = ms[b].clone();
            let m = &mut ms[a];
            for r in 0..m.nr.min(s.nr) {
                for c in 0..m.nc.min(s.nc) {
                    *m.at_mut(r, c) = s.at(r, c);
                }
            }
        }
        Op::Apply { a, k, .. } => ms[a] = ms[a].map(|v| E::norm(mix(b'a', v, k))),
        Op::Clear { a } => {
            let o = ms[a].order;
            ms[a] = Model::new(o, 0, 0, vec![]);
        }
        Op::Swap { a, kind, i, j } => {
            let m = &mut ms[a];
            let at = |m: &Model, p: (usize, usize)| resolve(m, p, kind == 4);
            match (at(m, i), at(m, j)) {
                (Some(x), Some(y)) => {
                    obs.push(0);
                    m.d.swap(x, y)
                }
                _ => obs.push(5),
            }
        }
        Op::SwapLines { a, rows, m: x, n: y } => {
            let m = &mut ms[a];
            let lim = if rows { m.nr } else { m.nc };
            if x >= lim || y >= lim {
                obs.push(5);
            } else {
                obs.push(0);
                let (nr, nc) = (m.nr, m.nc);
                if rows {
                    (0..nc).for_each(|c| m.d.swap(x * nc + c, y * nc + c));
                } else {
                    (0..nr).for_each(|r| m.d.swap(r * nc + x, r * nc + y));
                }
            }
        }
        Op::Write { a, kind, i, v } => {
            let m = &mut ms[a];
            match resolve(m, i, kind == 4) {
                Some(x) => {
                    obs.push(0);
                    m.d[x] = E::norm(v)
                }
                None => obs.push(if kind < 2 { 5 } else { PANIC }),
            }
        }
        Op::IterWrite { a, kind, n, rev, take, v } => {
            let m = &mut ms[a];
            let (nr, nc) = (m.nr, m.nc);
            let mut order: Vec<usize> = match kind {
                0 | 1 => (0..m.size())
                    .map(|k| {
                        let (r, c) = pos(m.order, nr, nc, k);
                        r * nc + c
                    })
                    .collect(),
                2 | 4 => (0..nr * nc).collect(),
                3 | 7 => (0..nc).flat_map(|c| (0..nr).map(move |r| r * nc + c)).collect(),
                5 if n < nr => (0..nc).map(|c| n * nc + c).collect(),
                6 if n < nc => (0..nr).map(|r| r * nc + n).collect(),
                _ => {
                    obs.push(5);
                    vec![]
                }
            };
            if rev {
                order.reverse();
            }
            for &k in order.iter().take(take) {
                m.d[k] = E::norm(mix(b'w', m.d[k], v));
            }
        }
        Op::Map { a, d, kind, k } => {
            let m = if kind == 0 || kind == 2 { taken(ms, a) } else { ms[a].clone() };
            obs.push(0);
            ms[d] = m.map(|v| E::norm(mix(b'm', v, k)));
        }
        Op::Elementwise { a, b, d, op, .. } => match logical_zip(&ms[a], &ms[b], |x, y| E::norm(opv(op, x, y))) {
            Some(m) => {
                obs.push(0);
                ms[d] = m
            }
            None => obs.push(7),
        },
        Op::ElementwiseAssign { a, b, op, .. } => match logical_zip(&ms[a], &ms[b], |x, y| E::norm(opv(op, x, y))) {
            Some(m) => {
                obs.push(0);
                ms[a] = m
            }
            None => obs.push(7),
        },
        Op::Operator { a, b, d, op, .. } => match logical_zip(&ms[a], &ms[b], |x, y| E::norm(opv(op, x, y))) {
            Some(m) => {
                obs.push(0);
                ms[d] = m
            }
            None => obs.push(PANIC),
        },
        Op::OperatorAssign { a, b, op, .. } => match logical_zip(&ms[a], &ms[b], |x, y| E::norm(opv(op, x, y))) {
            Some(m) => {
                obs.push(0);
                ms[a] = m
            }
            None => obs.push(PANIC),
        },
        Op::Mul { a, b, d, kind } => match model_mul::<E>(&ms[a], &ms[b]) {
            Some(m) => {
                obs.push(0);
                ms[d] = m
            }
            None => obs.push(if kind < 2 { 7 } else { PANIC }),
        },
        Op::Scalar { a, d, kind, v } => {
            let m = if kind == 1 { taken(ms, a) } else { ms[a].clone() };
            obs.push(0);
            let s = E::norm(v);
            ms[d] = m.map(|x| E::norm(opv(b's', x, s)));
        }
        Op::ScalarAssign { a, v } => {
            let s = E::norm(v);
            ms[a] = ms[a].map(|x| E::norm(opv(b's', x, s)));
        }
        Op::Neg { a, d, by_ref } => {
            let m = if by_ref { ms[a].clone() } else { taken(ms, a) };
            ms[d] = m.map(|x| E::norm(mix(b'n', x, 0)));
        }
        Op::Consume { a, kind, front, back } => {
            let m = taken(ms, a);
            let mem = m.mem();
            let item = |k: usize| {
                if kind % 2 == 0 {
                    mem[k]
                } else {
                    let (r, c) = pos(m.order, m.nr, m.nc, k);
                    mix(b'i', (r * 64 + c) as u64, mem[k])
                }
            };
            if kind < 2 {
                let (mut lo, mut hi) = (0, mem.len());
                for _ in 0..front {
                    obs.push(if lo < hi {
                        lo += 1;
                        item(lo - 1)
                    } else {
                        u64::MAX
                    });
                }
                for _ in 0..back {
                    obs.push(if lo < hi {
                        hi -= 1;
                        item(hi)
                    } else {
                        u64::MAX
                    });
                }
            } else {
                obs = (0..mem.len()).map(item).collect();
                obs.sort();
            }
        }
        Op::Eq { a, b } => obs.push(((ms[a].nr, ms[a].nc) == (ms[b].nr, ms[b].nc) && ms[a].d == ms[b].d) as u64),
        Op::Contains { a, v } => obs.push(ms[a].d.contains(&E::norm(v)) as u64),
        Op::Fmt { .. } => obs.push(1),
        Op::Read { a, kind, i } => obs.push(match resolve(&ms[a], i, kind == 3) {
            Some(x) => mix(0, ms[a].d[x], 0),
            None => {
                if kind == 2 {
                    PANIC
                } else {
                    5
                }
            }
        }),
        Op::Views { a } => {
            let m = &ms[a];
            for r in 0..m.nr {
                obs.push(m.nc as u64);
                obs.extend(m.row(r));
            }
            for c in (0..m.nc).rev() {
                obs.push(m.nr as u64);
                obs.extend(m.col(c).into_iter().rev());
            }
        }
        Op::Swapped { a, b } => ms.swap(a, b),
        Op::DropSlot { a } => ms[a] = Model::empty(),
    }
    obs
}

/// Row-major position an index stands for.
fn resolve(m: &Model, (r, c): (usize, usize), wrapping: bool) -> Option<usize> {
    if wrapping {
        if m.size() == 0 {
            return None;
        }
        let w = |x: usize, n: usize| (x as isize as i128).rem_euclid(n as i128) as usize;
        return Some(w(r, m.nr) * m.nc + w(c, m.nc));
    }
    if r < m.nr && c < m.nc { Some(r * m.nc + c) } else { None }
}

/// Matrices with a drawn past: random operations whose effect is observed, not judged.
/// None: something went wrong on the way, which is for other checks to report.
pub fn history<E: Elem>(src: &mut Src, ext: usize, steps: usize, large: u64) -> Option<(Pool<E>, Models)> {
    let mut pool: Pool<E> = vec![];
    let mut models = vec![];
    let large = if large > 0 && src.chance(1, large) { 2 } else { 0 };
    for s in 0..SLOTS {
        let md = draw_any_model::<E>(src, ext, large, 100 * (s as u64 + 1));
        let (m, md) = obtain_any(src, &md)?;
        pool.push(m);
        models.push(md);
    }
    let lim = Lim { ext, par: false, elem: size_of::<E>(), large };
    let n = src.upto(steps);
    for i in 0..n {
        // half of the steps change the order, the shape or the capacity
        let op = if src.flip() {
            draw(src, &models, lim, 1000 * (i as u64 + 1))
        } else {
            let k = *src.pick(&[5, 6, 7, 8, 9, 10]);
            draw_kind(src, &models, lim, 1000 * (i as u64 + 1), k)
        };
        guard(|| exec(&op, &mut pool)).ok()?;
        for (m, md) in pool.iter().zip(models.iter_mut()) {
            if m.size() > if large > 0 { 80_000 } else { 2000 } {
                return None;
            }
            *md = guard(|| coherent(m)).ok()?.ok()?;
        }
    }
    crate::ledger::check().ok()?;
    Some((pool, models))
}
