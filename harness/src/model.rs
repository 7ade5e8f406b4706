//! Row-of-rows reference model, coherence check, builders.
use crate::elem::Elem;
use crate::engine::{R, Src, dict};
use crate::ensure;
use matreex::{Error, Index, Matrix, Order, Shape};

pub const ORDERS: [Order; 2] = [Order::RowMajor, Order::ColMajor];

pub fn other(o: Order) -> Order {
    match o {
        Order::RowMajor => Order::ColMajor,
        Order::ColMajor => Order::RowMajor,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Model {
    pub order: Order,
    pub nr: usize,
    pub nc: usize,
    /// logical contents, row by row
    pub d: Vec<u64>,
}

/// logical (row, col) of the k-th element in memory order
pub fn pos(order: Order, nr: usize, nc: usize, k: usize) -> (usize, usize) {
    match order {
        Order::RowMajor => (k / nc, k % nc),
        Order::ColMajor => (k % nr, k / nr),
    }
}

/// memory position of (row, col)
pub fn flat(order: Order, nr: usize, nc: usize, r: usize, c: usize) -> usize {
    match order {
        Order::RowMajor => r * nc + c,
        Order::ColMajor => c * nr + r,
    }
}

impl Model {
    pub fn new(order: Order, nr: usize, nc: usize, d: Vec<u64>) -> Self {
        assert_eq!(nr * nc, d.len(), "harness: model size");
        Model { order, nr, nc, d }
    }
    pub fn empty() -> Self {
        Model::new(Order::RowMajor, 0, 0, vec![])
    }
    pub fn at(&self, r: usize, c: usize) -> u64 {
        self.d[r * self.nc + c]
    }
    pub fn at_mut(&mut self, r: usize, c: usize) -> &mut u64 {
        &mut self.d[r * self.nc + c]
    }
    pub fn size(&self) -> usize {
        self.nr * self.nc
    }
    pub fn mem(&self) -> Vec<u64> {
        (0..self.size())
            .map(|k| {
                let (r, c) = pos(self.order, self.nr, self.nc, k);
                self.at(r, c)
            })
            .collect()
    }
    pub fn from_mem(order: Order, nr: usize, nc: usize, mem: &[u64]) -> Self {
        assert_eq!(nr * nc, mem.len(), "harness: model size");
        let mut d = vec![0; mem.len()];
        for (k, &v) in mem.iter().enumerate() {
            let (r, c) = pos(order, nr, nc, k);
            d[r * nc + c] = v;
        }
        Model { order, nr, nc, d }
    }
    pub fn transposed(&self) -> Self {
        let mut d = Vec::with_capacity(self.d.len());
        if !self.d.is_empty() {
            for c in 0..self.nc {
                for r in 0..self.nr {
                    d.push(self.at(r, c));
                }
            }
        }
        Model { order: self.order, nr: self.nc, nc: self.nr, d }
    }
    pub fn with_order(&self, o: Order) -> Self {
        Model { order: o, ..self.clone() }
    }
    pub fn row(&self, r: usize) -> Vec<u64> {
        (0..self.nc).map(|c| self.at(r, c)).collect()
    }
    pub fn col(&self, c: usize) -> Vec<u64> {
        (0..self.nr).map(|r| self.at(r, c)).collect()
    }
    pub fn map(&self, f: impl Fn(u64) -> u64) -> Self {
        Model { d: self.d.iter().map(|&v| f(v)).collect(), ..self.clone() }
    }
    pub fn show(&self) -> String {
        let o = if self.order == Order::RowMajor { "row" } else { "col" };
        if self.d.len() <= 12 {
            let rows: Vec<Vec<u64>> =
                if self.d.is_empty() { vec![] } else { (0..self.nr).map(|r| self.row(r)).collect() };
            format!("{}x{} {o}-major {rows:?}", self.nr, self.nc)
        } else {
            format!("{}x{} {o}-major", self.nr, self.nc)
        }
    }
}

/// The coherence relation of C01 for one matrix (shape vs. store, one live element per position).
/// Returns the logical contents.
pub fn coherent<E: Elem>(m: &Matrix<E>) -> Result<Model, String> {
    let (nr, nc, order, size) = (m.nrows(), m.ncols(), m.order(), m.size());
    ensure!(
        nr.checked_mul(nc) == Some(size),
        "nrows()*ncols() = {nr}*{nc} but size() = {size} ({order:?})"
    );
    ensure!(m.shape() == Shape::new(nr, nc), "shape() = {:?} but {nr}x{nc}", m.shape());
    ensure!(m.is_empty() == (size == 0), "is_empty() = {} at size {size}", m.is_empty());
    ensure!(m.capacity() >= size, "capacity() {} < size() {size}", m.capacity());
    let mut it = m.iter_elements();
    ensure!(it.len() == size, "iter_elements().len() = {} but size() = {size}", it.len());
    ensure!(
        m.get((nr, 0)) == Err(Error::IndexOutOfBounds) && m.get((0, nc)) == Err(Error::IndexOutOfBounds),
        "get just outside a {nr}x{nc} matrix is not IndexOutOfBounds"
    );
    if size == 0 {
        ensure!(it.next().is_none(), "iter_elements() of an empty matrix yields an element");
        return Ok(Model { order, nr, nc, d: vec![] });
    }
    let base = match m.iter_elements().next() {
        Some(e) => e as *const E as usize,
        None => return Err("iter_elements() yields nothing".into()),
    };
    let sz = size_of::<E>();
    for (k, e) in it.by_ref().enumerate() {
        ensure!(e as *const E as usize == base + k * sz, "element {k} of iter_elements() is not at base+{k}");
    }
    let mut d = Vec::with_capacity(size);
    for r in 0..nr {
        for c in 0..nc {
            let e = m.get((r, c)).map_err(|e| format!("get(({r},{c})) of {nr}x{nc} fails: {e}"))?;
            let want = base + flat(order, nr, nc, r, c) * sz;
            let got = e as *const E as usize;
            ensure!(
                got == want,
                "get(({r},{c})) of {nr}x{nc} {order:?} is at offset {} instead of {}",
                got.wrapping_sub(base) as isize,
                want - base
            );
            d.push(e.val());
        }
    }
    crate::ledger::check()?;
    Ok(Model { order, nr, nc, d })
}

/// Coherent, and equal to the model in order, shape and contents.
pub fn same<E: Elem>(m: &Matrix<E>, want: &Model) -> R {
    let got = coherent(m)?;
    if got != *want {
        return Err(format!("matrix is {} but should be {}", got.show_full(), want.show_full()));
    }
    Ok(())
}

impl Model {
    pub fn show_full(&self) -> String {
        format!("{}x{} {:?} {:?}", self.nr, self.nc, self.order, self.d)
    }
}

pub fn ids<E: Elem>(m: &Matrix<E>) -> Vec<u32> {
    m.iter_elements().map(|e| e.id()).collect()
}

/// logical ids, row by row
pub fn lids<E: Elem>(m: &Matrix<E>) -> Vec<u32> {
    let mut v = vec![];
    if m.size() > 0 {
        for r in 0..m.nrows() {
            for c in 0..m.ncols() {
                v.push(m.get((r, c)).map(|e| e.id()).unwrap_or(u32::MAX));
            }
        }
    }
    v
}

pub const PATHS: usize = 6;

/// Builds the matrix described by `md` through construction path `path`.
pub fn build_path<E: Elem>(md: &Model, path: usize) -> Matrix<E> {
    let (a, b) = match md.order {
        Order::RowMajor => (md.nr, md.nc),
        Order::ColMajor => (md.nc, md.nr),
    };
    let mem = md.mem();
    let vec = |extra: usize| -> Vec<E> {
        mem.iter().map(|&v| E::mk(v)).chain((0..extra).map(|i| E::mk(0xE0 + i as u64))).collect()
    };
    let rows = |a: usize, b: usize, d: &[u64]| -> Vec<Vec<E>> {
        (0..a).map(|i| d[i * b..i * b + b].iter().map(|&v| E::mk(v)).collect()).collect()
    };
    let zero_rows = a == 0 && b != 0;
    let mut m = match path {
        1 => {
            let mut m = Matrix::from_row(vec(0));
            m.reshape((a, b)).expect("harness: reshape");
            m
        }
        2 if !zero_rows => Matrix::try_from(rows(a, b, &mem)).expect("harness: try_from"),
        3 if !zero_rows => rows(a, b, &mem).into_iter().collect(),
        4 if !(md.nr == 0 && md.nc != 0) => {
            // row-major first, then really re-laid out
            let mut m = Matrix::try_from(rows(md.nr, md.nc, &md.d)).expect("harness: try_from");
            m.set_order(md.order);
            return m;
        }
        5 => {
            // spare capacity with stale contents behind the live elements
            let mut m = Matrix::from_col(vec(5));
            m.resize((mem.len(), 1)).expect("harness: resize");
            m.reshape((a, b)).expect("harness: reshape");
            m
        }
        _ => Matrix::with_initializer((a, b), |i: Index| E::mk(mem[i.row * b + i.col])).expect("harness: init"),
    };
    if md.order == Order::ColMajor {
        m.switch_order_without_rearrangement();
    }
    m
}

/// A matrix for `md` by a drawn construction path.
pub fn build<E: Elem>(src: &mut Src, md: &Model) -> Matrix<E> {
    let p = src.idx(PATHS);
    build_path(md, p)
}

/// Builds `md` and reports what was really built: whether the constructors do the right thing is
/// the business of C01 and C19 only. None: the construction failed or gave an incoherent matrix.
pub fn obtain<E: Elem>(md: &Model, path: usize) -> Option<(Matrix<E>, Model)> {
    let m = crate::engine::guard(|| build_path::<E>(md, path)).ok()?;
    let real = crate::engine::guard(|| coherent(&m)).ok()?.ok()?;
    Some((m, real))
}

/// The same by a drawn construction path.
pub fn obtain_any<E: Elem>(src: &mut Src, md: &Model) -> Option<(Matrix<E>, Model)> {
    let mut p = if src.is_exhaustive() { 0 } else { src.idx(PATHS) };
    if md.nr.max(md.nc) > 1 << 16 && (2..=4).contains(&p) {
        p = 0; // no vector of that many rows
    }
    obtain(md, p)
}

/// `obtain_any`, ending the case without a verdict if there is no matrix.
#[macro_export]
macro_rules! made {
    ($cx:expr, $e:expr) => {
        match $e {
            Some(x) => x,
            None => {
                $cx.label("no matrix");
                return Ok(());
            }
        }
    };
}

/// Shape, order and the memory-order sequence, observed without get.
pub fn observe_mem<E: Elem>(m: &Matrix<E>) -> Option<Model> {
    let mem: Vec<u64> = m.iter_elements().map(|e| e.val()).collect();
    if m.nrows().checked_mul(m.ncols()) != Some(mem.len()) {
        return None;
    }
    Some(Model::from_mem(m.order(), m.nrows(), m.ncols(), &mem))
}

pub fn draw_order(src: &mut Src) -> Order {
    ORDERS[src.idx(2)]
}

/// A shape with extents up to `max`; degenerate and 1-extents are frequent.
pub fn draw_shape(src: &mut Src, max: usize) -> (usize, usize) {
    if src.is_exhaustive() {
        let k = src.idx((max + 1) * (max + 1));
        return (k / (max + 1), k % (max + 1));
    }
    let mut ext = || match src.idx(16) {
        0 | 1 => 2.min(max),
        2 | 3 => 1.min(max),
        4 => 0,
        5 | 6 => 3.min(max),
        _ => src.range(max.min(1), max),
    };
    (ext(), ext())
}

/// Numbers that occur in the code under test, and what is next to them.
pub fn near(max: u64) -> Vec<u64> {
    dict().iter().flat_map(|&v| [v - 1, v, v, v + 1]).filter(|&v| (4..=max).contains(&v)).collect()
}

/// Shapes around the sizes at which an implementation may change strategy: one extent up to a
/// thousand or so, a few thousand elements; seldom around 65536.
pub fn draw_large(src: &mut Src) -> (usize, usize) {
    let near = near(70_000);
    let far: &[u64] = if near.iter().any(|&v| v > 4_200) { &[47, 0, 0, 0, 0, 0, 0, 0, 0, 0] } else { &[] };
    let top = if src.hinted(0, 47, far) == 47 { 70_000 } else { 4_200 };
    if src.hinted(0, 5, if near.is_empty() { &[] } else { &[5, 5, 0] }) == 5 {
        let a = src.hinted(1, top, &near);
        let cap = top / a;
        let mut c: Vec<u64> = near.iter().copied().filter(|&v| v <= cap as u64).collect();
        for &v in &near {
            // as many elements as such a number
            c.extend([v.div_ceil(a as u64), (v / a as u64).max(1)]);
        }
        if !near.is_empty() {
            c.extend([1, 2, 3, 5, a as u64]);
        }
        let b = src.hinted(1, cap.max(1), &c);
        return if src.flip() { (a, b) } else { (b, a) };
    }
    let a = match src.idx(8) {
        0..=2 => (1usize << src.range(4, if top > 5000 { 16 } else { 12 })) - 1 + src.idx(3),
        3 | 4 => src.range(8, 70),
        5 => src.range(65, 300),
        6 => src.range(8, 40),
        _ => src.range(100, if top > 5000 { 66_000 } else { 1_100 }),
    };
    let cap = top / a;
    let b = match src.idx(4) {
        0 => 1,
        1 => src.range(2, 9).min(cap),
        2 => src.range(1, 70).min(cap),
        _ => src.range(1, cap.min(300).max(1)),
    };
    if src.flip() { (a, b.max(1)) } else { (b.max(1), a) }
}

/// Positions beyond 16 bits, whose products exceed 32 bits.
pub fn draw_giant(src: &mut Src) -> (usize, usize) {
    let a = match src.idx(4) {
        0 => (1usize << src.range(15, 17)) - 1 + src.idx(3),
        1 => src.range(30_000, 140_000),
        2 => src.range(256, 1_100),
        _ => src.range(2_000, 30_000),
    };
    let cap = 280_000 / a;
    let b = match src.idx(3) {
        0 => src.range(1, 4).min(cap),
        1 => cap,
        _ => src.range(1, cap),
    };
    let b = b.max(1);
    if src.flip() { (a, b) } else { (b, a) }
}

/// A small shape, and one time in `den` a large one (never for 0).
pub fn draw_any_shape(src: &mut Src, max: usize, den: u64) -> (usize, usize) {
    if den > 0 && !cfg!(miri) && !src.is_exhaustive() && src.chance(1, den) { draw_large(src) } else { draw_shape(src, max) }
}

/// Distinct values by default, so that any misplacement is visible.
pub fn distinct<E: Elem>(n: usize, start: u64) -> Vec<u64> {
    (0..n as u64).map(|i| E::norm(start + i)).collect()
}

pub fn draw_model<E: Elem>(src: &mut Src, max: usize, start: u64) -> Model {
    let (nr, nc) = draw_shape(src, max);
    let order = draw_order(src);
    Model::new(order, nr, nc, distinct::<E>(nr * nc, start))
}

pub fn draw_any_model<E: Elem>(src: &mut Src, max: usize, den: u64, start: u64) -> Model {
    let (nr, nc) = draw_any_shape(src, max, den);
    let order = draw_order(src);
    Model::new(order, nr, nc, distinct::<E>(nr * nc, start))
}

pub fn err_name<T>(r: &Result<T, Error>) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => format!("{e:?}"),
    }
}

/// Shapes with up to usize::MAX elements (for zero-sized types only).
pub fn huge_shape(src: &mut Src) -> (usize, usize) {
    const PRIMES: [usize; 7] = [3, 5, 17, 257, 641, 65537, 6700417];
    let (a, b) = match src.idx(6) {
        0 => (usize::MAX, 1),
        1 => {
            // a divisor pair of usize::MAX
            let mask = src.idx(128);
            let a: usize = PRIMES.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, p)| p).product();
            (a, usize::MAX / a)
        }
        2 => (1 << 63, 1),
        3 => {
            let k = src.idx(64);
            (1 << k, 1 << (63 - k))
        }
        4 => ((1 << 32) - 1, (1 << 32) + 1),
        _ => (isize::MAX as usize, src.range(1, 2)),
    };
    if src.flip() { (b, a) } else { (a, b) }
}

/// A matrix of zero-sized elements, made without visiting every element.
pub fn huge_zst<E: Elem>(nr: usize, nc: usize, order: Order) -> Matrix<E> {
    assert!(size_of::<E>() == 0 && !std::mem::needs_drop::<E>());
    let mut v: Vec<E> = Vec::new();
    // sound: zero-sized elements without drop glue need no memory and no initialisation
    unsafe { v.set_len(nr * nc) };
    let mut m = Matrix::from_row(v);
    if m.order() != order {
        m.switch_order_without_rearrangement();
    }
    m.reshape((nr, nc)).expect("harness: reshape");
    m
}

/// multiplicative inverse of an odd number modulo 2^64
pub fn inv(a: u64) -> u64 {
    let mut x = a;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

// ------------------------------------------------------------------ operand types

/// A type that can be put into a matrix and looked at; nothing else.
pub trait Val {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn norm(v: u64) -> u64;
    fn id(&self) -> u32;
}

/// Builds `md` for types that are only operands.
pub fn make_val<F: Val>(md: &Model, path: usize) -> Option<Matrix<F>> {
    crate::engine::guard(|| {
        let mem = md.mem();
        let (a, b) = if md.order == Order::RowMajor { (md.nr, md.nc) } else { (md.nc, md.nr) };
        let mut v: Vec<F> = Vec::with_capacity(mem.len() + path * 3);
        v.extend(mem.iter().map(|&x| F::mk(x)));
        let mut m = Matrix::from_row(v);
        m.reshape((a, b)).ok()?;
        match (md.order, path) {
            (Order::ColMajor, _) => {
                m.switch_order_without_rearrangement();
            }
            (_, 2) => {
                m.switch_order().switch_order();
            }
            (_, 3) => {
                m.transpose().transpose();
            }
            _ => {}
        }
        // what the constructors do is the business of other properties
        (see_val(&m)? == *md).then_some(m)
    })
    .ok()?
}

pub fn see_val<F: Val>(m: &Matrix<F>) -> Option<Model> {
    let mem: Vec<u64> = m.iter_elements().map(|e| e.val()).collect();
    if m.nrows().checked_mul(m.ncols()) != Some(mem.len()) {
        return None;
    }
    let md = Model::from_mem(m.order(), m.nrows(), m.ncols(), &mem);
    // the same through get
    for k in 0..mem.len() {
        let p = (k / md.nc, k % md.nc);
        if m.get(p).ok()?.val() != md.d[k] {
            return None;
        }
    }
    Some(md)
}

pub fn see_ids<F: Val>(m: &Matrix<F>) -> Vec<u32> {
    m.iter_elements().map(|e| e.id()).collect()
}
