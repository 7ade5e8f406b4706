//! C10: swaps exchange exactly the named elements, rows or columns.
use matreex::{Error, Index, Matrix, WrappingIndex};
use mxv::engine::guard;
use mxv::ledger::counts;
use mxv::ops::TickIdx;
use mxv::*;

/// What a matrix should hold: value and identity of every position.
#[derive(Clone, PartialEq, Debug)]
struct Want {
    md: Model,
    ids: Vec<u32>,
}

impl Want {
    fn of<E: Elem>(m: &Matrix<E>, md: Model) -> Want {
        Want { ids: lids(m), md }
    }
    fn swap(&mut self, i: (usize, usize), j: (usize, usize)) {
        let (a, b) = (i.0 * self.md.nc + i.1, j.0 * self.md.nc + j.1);
        self.md.d.swap(a, b);
        self.ids.swap(a, b);
    }
    fn judge<E: Elem>(&self, m: &Matrix<E>, what: &dyn Fn() -> String) -> R {
        ensure!(
            (m.nrows(), m.ncols(), m.order(), m.size()) == (self.md.nr, self.md.nc, self.md.order, self.md.size()),
            "{}: the matrix is {}x{} {:?} afterwards",
            what(),
            m.nrows(),
            m.ncols(),
            m.order()
        );
        let mut k = 0;
        if self.md.size() == 0 {
            return Ok(());
        }
        for r in 0..self.md.nr {
            for c in 0..self.md.nc {
                let e = m.get((r, c)).map_err(|e| format!("{}: get(({r},{c})) fails with {e:?}", what()))?;
                ensure!(
                    e.val() == self.md.d[k] && e.id() == self.ids[k],
                    "{}: ({r},{c}) holds {} (#{}) instead of {} (#{})",
                    what(),
                    e.val(),
                    e.id(),
                    self.md.d[k],
                    self.ids[k]
                );
                k += 1;
            }
        }
        Ok(())
    }
}

fn rows_or_cols<E: Elem>(m: &mut Matrix<E>, want: &mut Want, rows: bool, a: usize, b: usize) -> R {
    let (nr, nc) = (want.md.nr, want.md.nc);
    let ext = if rows { nr } else { nc };
    let before = counts();
    let r = if rows { m.swap_rows(a, b).map(|_| ()) } else { m.swap_cols(a, b).map(|_| ()) };
    let shape = want.md.show();
    let what = || format!("{}({a}, {b}) of {shape}", if rows { "swap_rows" } else { "swap_cols" });
    if a < ext && b < ext {
        ensure!(r.is_ok(), "{} fails with {r:?}", what());
        for k in 0..(if rows { nc } else { nr }) {
            if rows { want.swap((a, k), (b, k)) } else { want.swap((k, a), (k, b)) }
        }
    } else {
        ensure!(r == Err(Error::IndexOutOfBounds), "{} gives {r:?} instead of IndexOutOfBounds", what());
    }
    ensure!(counts() == before, "{} makes or drops elements: {:?}, before {before:?}", what(), counts());
    want.judge(m, &what)
}

/// An index in one of the accepted types; wrapping ones are moved by whole periods.
#[derive(Clone, Copy, Debug)]
enum Ix {
    Tuple(usize, usize),
    Array(usize, usize),
    Index(usize, usize),
    Caller(usize, usize),
    Wrapping(isize, isize),
}
const FORMS: usize = 5;

fn form(src: &mut Src, k: usize, i: (usize, usize), md: &Model) -> Ix {
    match k {
        0 => Ix::Tuple(i.0, i.1),
        1 => Ix::Array(i.0, i.1),
        2 => Ix::Index(i.0, i.1),
        3 => Ix::Caller(i.0, i.1),
        _ => {
            let p = |src: &mut Src, x: usize, n: usize| x as isize + n as isize * (src.idx(5) as isize - 2);
            Ix::Wrapping(p(src, i.0, md.nr), p(src, i.1, md.nc))
        }
    }
}

fn swap<E: Elem>(m: &mut Matrix<E>, i: Ix, j: Ix) -> Result<(), Error> {
    macro_rules! second {
        ($i:expr) => {
            match j {
                Ix::Tuple(r, c) => m.swap($i, (r, c)),
                Ix::Array(r, c) => m.swap($i, [r, c]),
                Ix::Index(r, c) => m.swap($i, Index::new(r, c)),
                Ix::Caller(r, c) => m.swap($i, TickIdx(r, c)),
                Ix::Wrapping(r, c) => m.swap($i, WrappingIndex::new(r, c)),
            }
        };
    }
    match i {
        Ix::Tuple(r, c) => second!((r, c)),
        Ix::Array(r, c) => second!([r, c]),
        Ix::Index(r, c) => second!(Index::new(r, c)),
        Ix::Caller(r, c) => second!(TickIdx(r, c)),
        Ix::Wrapping(r, c) => second!(WrappingIndex::new(r, c)),
    }
    .map(|_| ())
}

/// The position an index names, if any.
fn named(i: Ix, md: &Model) -> Option<(usize, usize)> {
    match i {
        Ix::Tuple(r, c) | Ix::Array(r, c) | Ix::Index(r, c) | Ix::Caller(r, c) => (r < md.nr && c < md.nc).then_some((r, c)),
        Ix::Wrapping(r, c) => {
            let m = |x: isize, n: usize| (x as i128).rem_euclid(n as i128) as usize;
            (md.nr > 0 && md.nc > 0).then(|| (m(r, md.nr), m(c, md.nc)))
        }
    }
}

fn elements<E: Elem>(m: &mut Matrix<E>, want: &mut Want, i: Ix, j: Ix) -> R {
    let before = counts();
    let r = swap(m, i, j);
    let shape = want.md.show();
    let what = || format!("swap({i:?}, {j:?}) of {shape}");
    match (named(i, &want.md), named(j, &want.md)) {
        (Some(a), Some(b)) => {
            ensure!(r.is_ok(), "{} fails with {r:?}", what());
            want.swap(a, b);
        }
        _ => ensure!(r == Err(Error::IndexOutOfBounds), "{} gives {r:?} instead of IndexOutOfBounds", what()),
    }
    ensure!(counts() == before, "{} makes or drops elements: {:?}, before {before:?}", what(), counts());
    want.judge(m, &what)
}

/// Every pair of rows, of columns and of elements of one small matrix.
fn all<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let ext = if cx.miri { 3 } else { 4 + cx.scale as usize };
    let (nr, nc) = draw_shape(src, ext);
    let order = draw_order(src);
    let md = Model::new(order, nr, nc, distinct::<E>(nr * nc, 1));
    let (mut m, md) = made!(cx, obtain_any::<E>(src, &md));
    let mut want = Want::of(&m, md);
    cx.nontrivial = true;
    cx.evals = 0;
    cx.note(|| format!("all pairs of {}", want.md.show()));
    for rows in [true, false] {
        let ext = if rows { nr } else { nc };
        for a in 0..=ext + 1 {
            for b in 0..=ext + 1 {
                rows_or_cols(&mut m, &mut want, rows, a, b)?;
                cx.evals += 1;
            }
        }
    }
    // elements: every pair of positions in and just around the matrix
    let cells: Vec<(usize, usize)> = (0..=nr).flat_map(|r| (0..=nc).map(move |c| (r, c))).collect();
    let mut f = 0;
    for &i in &cells {
        for &j in &cells {
            f += 1;
            let (a, b) = (form(&mut Src::replay(vec![]), f % 4, i, &want.md), form(&mut Src::replay(vec![]), f / 4 % 4, j, &want.md));
            elements(&mut m, &mut want, a, b)?;
            cx.evals += 1;
        }
    }
    drop(m);
    ledger::check()
}

/// Drawn swaps on one matrix, one after the other.
fn seq<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = match src.idx(16) {
        0 if !cx.miri => (src.range(1, 40), src.range(1, 40)),
        _ => draw_any_shape(src, 7 + cx.scale as usize, 12),
    };
    let order = draw_order(src);
    let md = Model::new(order, nr, nc, distinct::<E>(nr * nc, 1));
    let (mut m, md) = made!(cx, obtain_any::<E>(src, &md));
    let mut want = Want::of(&m, md);
    cx.note(|| want.md.show());
    let n = 1 + src.idx(8);
    cx.evals = n as u64;
    let near = |src: &mut Src, n: usize| match src.idx(8) {
        6 => n,
        7 => *src.pick(&[n + 1, usize::MAX, usize::MAX - n, isize::MAX as usize + 1]),
        _ => {
            if n > 0 {
                src.idx(n)
            } else {
                0
            }
        }
    };
    for _ in 0..n {
        if src.flip() {
            let rows = src.flip();
            let ext = if rows { nr } else { nc };
            let a = near(src, ext);
            let b = if src.chance(1, 5) { a } else { near(src, ext) };
            cx.note(|| format!("{} {a} {b}", if rows { "rows" } else { "cols" }));
            cx.nontrivial |= a < ext && b < ext;
            rows_or_cols(&mut m, &mut want, rows, a, b)?;
        } else {
            let i = (near(src, nr), near(src, nc));
            let j = if src.chance(1, 5) { i } else { (near(src, nr), near(src, nc)) };
            let mut ix = |i: (usize, usize)| {
                let k = src.idx(FORMS);
                if k == 4 && (i.0 > nr || i.1 > nc) {
                    return Ix::Wrapping(i.0 as isize, i.1 as isize);
                }
                form(src, k, i, &want.md)
            };
            let (a, b) = (ix(i), ix(j));
            cx.note(|| format!("{a:?} {b:?}"));
            cx.nontrivial |= named(a, &want.md).is_some() && named(b, &want.md).is_some();
            elements(&mut m, &mut want, a, b)?;
        }
    }
    drop(m);
    ledger::check()
}

/// Matrices of zero-sized elements with one enormous extent: swaps of short vectors.
fn huge<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (mut nr, mut nc) = huge_shape(src);
    if nr.min(nc) > 16 {
        (nr, nc) = (src.range(1, 16), usize::MAX / 16);
    }
    if src.flip() {
        (nr, nc) = (nc, nr);
    }
    let order = draw_order(src);
    let mut m = made!(cx, guard(|| huge_zst::<E>(nr, nc, order)).ok());
    cx.nontrivial = true;
    // the long extent is the one swapped along
    let rows = nr > nc;
    let ext = nr.max(nc);
    let mut at = || match src.idx(5) {
        0 => src.idx(4),
        1 => ext - 1,
        2 => ext,
        3 => src.u64() as usize,
        _ => src.u64() as usize % ext,
    };
    let (a, b) = (at(), at());
    let what = format!("{}({a}, {b}) of {nr}x{nc} {order:?}", if rows { "swap_rows" } else { "swap_cols" });
    cx.note(|| what.clone());
    let r = if rows { m.swap_rows(a, b).map(|_| ()) } else { m.swap_cols(a, b).map(|_| ()) };
    let want = if a < ext && b < ext { Ok(()) } else { Err(Error::IndexOutOfBounds) };
    ensure!(r == want, "{what} gives {r:?}");
    let (i, j) = if rows { ((a, 0), (b, 0)) } else { ((0, a), (0, b)) };
    let r = m.swap(i, j).map(|_| ());
    ensure!(r == want, "swap({i:?}, {j:?}) of {nr}x{nc} {order:?} gives {r:?}");
    ensure!((m.nrows(), m.ncols(), m.size()) == (nr, nc, nr * nc), "{what} changes the shape");
    Ok(())
}

/// Shapes without elements, one extent arbitrary.
fn hollow<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let n = *src.pick(&[0, 1, 2, 5]);
    let (nr, nc) = if src.flip() { (n, 0) } else { (0, n) };
    let order = draw_order(src);
    let (mut m, md) = made!(cx, obtain_any::<E>(src, &Model::new(order, nr, nc, vec![])));
    let mut want = Want::of(&m, md);
    cx.nontrivial = true;
    cx.evals = 3;
    let (a, b) = (src.idx(7), src.idx(7));
    rows_or_cols(&mut m, &mut want, true, a, b)?;
    rows_or_cols(&mut m, &mut want, false, a, b)?;
    let k = src.idx(FORMS);
    let i = form(src, k, (a, b), &want.md);
    let k = src.idx(FORMS);
    let j = form(src, k, (b, a), &want.md);
    cx.note(|| format!("{} {a} {b} {i:?} {j:?}", want.md.show()));
    elements(&mut m, &mut want, i, j)
}

fn main() {
    main_entry(&[
        Suite { name: "all-u8", f: all::<W8> },
        Suite { name: "all-tracked4", f: all::<Tr4> },
        Suite { name: "all-3xu64", f: all::<W24> },
        Suite { name: "sequence-u8", f: seq::<W8> },
        Suite { name: "sequence-u16", f: seq::<W16> },
        Suite { name: "sequence-tracked24", f: seq::<Tr24> },
        Suite { name: "sequence-tracked8", f: seq::<Tr8> },
        Suite { name: "sequence-string", f: seq::<St> },
        Suite { name: "sequence-tracked-zst", f: seq::<TrZ1> },
        Suite { name: "sequence-tracked-wide", f: seq::<TrWide> },
        Suite { name: "huge-unit", f: huge::<Z> },
        Suite { name: "huge-unit-align8", f: huge::<Z8> },
        Suite { name: "hollow-tracked8", f: hollow::<Tr8> },
        Suite { name: "hollow-unit", f: hollow::<TrZ1> },
    ])
}
