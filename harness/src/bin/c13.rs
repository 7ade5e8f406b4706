//! C13: wrapping indices address the Euclidean remainder position.
use matreex::index::MatrixIndex;
use matreex::{Error, Matrix, WrappingIndex};
use mxv::engine::guard;
use mxv::*;

const EXTREMES: [isize; 14] = [
    isize::MIN,
    isize::MIN + 1,
    isize::MIN + 2,
    isize::MAX,
    isize::MAX - 1,
    isize::MAX - 2,
    isize::MIN / 2,
    isize::MAX / 2,
    i32::MIN as isize,
    i32::MAX as isize,
    i32::MIN as isize - 1,
    i32::MAX as isize + 1,
    u32::MAX as isize,
    -(u32::MAX as isize),
];

fn rem(x: isize, n: usize) -> usize {
    (x as i128).rem_euclid(n as i128) as usize
}

const FORMS: usize = 14;
const NAMES: [&str; FORMS] = [
    "get",
    "get_mut",
    "[]",
    "[] mut",
    "get_unchecked",
    "get_unchecked_mut",
    "MatrixIndex::get",
    "MatrixIndex::get_mut",
    "MatrixIndex::index",
    "MatrixIndex::index_mut",
    "MatrixIndex::get_unchecked",
    "MatrixIndex::get_unchecked_mut",
    "ensure_in_bounds",
    "is_out_of_bounds",
];
const CHECKED: [usize; 6] = [0, 1, 6, 7, 12, 13];

/// Address of what the form refers to (0 for the two predicates, if they accept).
fn access<E>(m: &mut Matrix<E>, w: WrappingIndex, form: usize) -> Result<Result<usize, Error>, String> {
    let p = |e: &E| e as *const E as usize;
    guard(|| match form {
        0 => m.get(w).map(p),
        1 => m.get_mut(w).map(|e| p(e)),
        2 => Ok(p(&m[w])),
        3 => Ok(p(&mut m[w])),
        4 => Ok(p(unsafe { m.get_unchecked(w) })),
        5 => Ok(p(unsafe { m.get_unchecked_mut(w) })),
        6 => MatrixIndex::get(w, m).map(p),
        7 => MatrixIndex::get_mut(w, m).map(|e| p(e)),
        8 => Ok(p(MatrixIndex::index(w, m))),
        9 => Ok(p(MatrixIndex::index_mut(w, m))),
        10 => Ok(p(unsafe { MatrixIndex::get_unchecked(w, m) })),
        11 => Ok(p(unsafe { MatrixIndex::get_unchecked_mut(w, m) })),
        12 => MatrixIndex::<E>::ensure_in_bounds(&w, m).map(|_| 0),
        _ => {
            if MatrixIndex::<E>::is_out_of_bounds(&w, m) {
                Err(Error::IndexOutOfBounds)
            } else {
                Ok(0)
            }
        }
    })
}

/// One pair on a matrix with elements.
fn pair<E: Elem>(m: &mut Matrix<E>, md: &Model, row: isize, col: isize, forms: &[usize]) -> R {
    let (r, c) = (rem(row, md.nr), rem(col, md.nc));
    let want = match m.get((r, c)) {
        Ok(e) => e as *const E as usize,
        // plain indices are the business of C04
        Err(_) => return Ok(()),
    };
    for &f in forms {
        let got = access(m, WrappingIndex::new(row, col), f);
        let what = || format!("{} of ({row}, {col}) in {}", NAMES[f], md.show());
        match got {
            Err(p) => return Err(format!("{} panics: {p}", what())),
            Ok(Err(e)) => return Err(format!("{} fails with {e:?}", what())),
            Ok(Ok(a)) if f < 12 && a != want => {
                let off = (a.wrapping_sub(want) as isize) / (size_of::<E>().max(1) as isize);
                return Err(format!("{} is {off} elements away from the element at ({r}, {c})", what()));
            }
            Ok(Ok(_)) => {}
        }
    }
    let e = m.get(WrappingIndex::new(row, col)).map_err(|e| format!("{e:?}"))?;
    ensure!(e.val() == md.at(r, c), "get of ({row}, {col}) in {} is {} instead of {}", md.show(), e.val(), md.at(r, c));
    Ok(())
}

/// One pair on a matrix without elements.
fn none<E: Elem>(m: &mut Matrix<E>, row: isize, col: isize) -> R {
    let shape = format!("{}x{} {:?}", m.nrows(), m.ncols(), m.order());
    for f in 0..FORMS {
        let got = access(m, WrappingIndex::new(row, col), f);
        let what = || format!("{} of ({row}, {col}) in {shape}", NAMES[f]);
        if CHECKED.contains(&f) {
            ensure!(got == Ok(Err(Error::IndexOutOfBounds)), "{} gives {} instead of IndexOutOfBounds", what(), show(&got));
        } else {
            ensure!(got.is_err(), "{} gives {} instead of panicking", what(), show(&got));
        }
    }
    Ok(())
}

fn show(r: &Result<Result<usize, Error>, String>) -> String {
    match r {
        Ok(Ok(_)) => "a reference".into(),
        Ok(Err(e)) => format!("{e:?}"),
        Err(p) => format!("a panic ({p})"),
    }
}

const ALL: [usize; FORMS] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];

/// Every pair in a window of several periods, and all extremes, for one small matrix.
fn window<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let ext = if cx.miri { 2 } else { 5 + cx.scale as usize };
    let (nr, nc) = draw_shape(src, ext);
    let order = draw_order(src);
    let md = Model::new(order, nr, nc, distinct::<E>(nr * nc, 1));
    let (mut m, md) = made!(cx, obtain_any::<E>(src, &md));
    let axis = |n: usize| -> Vec<isize> {
        let w = if cx.miri { n as isize + 1 } else { 2 * n as isize + 2 };
        (-w..=w).chain(EXTREMES[..if cx.miri { 5 } else { 14 }].iter().copied()).collect()
    };
    let (rows, cols) = (axis(nr), axis(nc));
    cx.evals = (rows.len() * cols.len()) as u64;
    cx.nontrivial = true;
    cx.note(|| format!("{} pairs on {}", rows.len() * cols.len(), md.show()));
    let mut turn = 0;
    for &r in &rows {
        for &c in &cols {
            if md.size() == 0 {
                none(&mut m, r, c)?;
            } else if cx.miri {
                turn += 1;
                pair(&mut m, &md, r, c, &ALL[turn % 12..turn % 12 + 2])?;
            } else {
                pair(&mut m, &md, r, c, &ALL)?;
            }
        }
    }
    Ok(())
}

fn draw_value(src: &mut Src, n: usize) -> isize {
    let n = n.max(1) as i128;
    let clamp = |x: i128| x.clamp(isize::MIN as i128, isize::MAX as i128) as isize;
    match src.idx(8) {
        0 => src.idx(7) as isize - 3,
        1 => *src.pick(&EXTREMES),
        2 => src.u64() as isize,
        // around multiples of the extent, both signs
        3 => clamp(n * (src.idx(41) as i128 - 20) + src.idx(3) as i128 - 1),
        4 => {
            let q = (isize::MAX as i128) / n;
            clamp(n * q + src.idx(5) as i128 - 2)
        }
        5 => {
            let q = (isize::MIN as i128) / n;
            clamp(n * q + src.idx(5) as i128 - 2)
        }
        6 => isize::MIN.wrapping_add(src.idx(40) as isize).wrapping_sub(20),
        _ => (src.u64() >> src.idx(64)) as isize * if src.flip() { -1 } else { 1 },
    }
}

/// Long and large matrices, drawn pairs.
fn drawn<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let long = |src: &mut Src| match src.idx(4) {
        0 => src.range(1, 70),
        1 => (1usize << src.range(1, 8)) + src.idx(3) - 1,
        2 => src.range(1, 2000),
        _ => *src.pick(&[255, 256, 257, 1000, 1023]),
    };
    let (nr, nc) = match src.idx(5) {
        0 => (1, long(src)),
        1 => (long(src), 1),
        2 => (2, long(src)),
        3 => (src.range(1, 9), src.range(1, 9)),
        _ => (src.range(1, 40), src.range(1, 40)),
    };
    let order = draw_order(src);
    let md = Model::new(order, nr, nc, distinct::<E>(nr * nc, 1));
    let (mut m, md) = made!(cx, obtain_any::<E>(src, &md));
    if md.size() == 0 {
        return Ok(());
    }
    cx.evals = 16;
    for _ in 0..16 {
        let (r, c) = (draw_value(src, md.nr), draw_value(src, md.nc));
        cx.note(|| format!("({r}, {c}) in {}", md.show()));
        cx.nontrivial |= rem(r, md.nr) as isize != r || rem(c, md.nc) as isize != c;
        pair(&mut m, &md, r, c, &ALL)?;
    }
    Ok(())
}

/// Zero-sized elements: all that can be seen is that the checked forms succeed.
fn huge<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = if src.chance(1, 4) { (src.range(1, 6), src.range(1, 6)) } else { huge_shape(src) };
    let order = draw_order(src);
    let mut m = made!(cx, guard(|| huge_zst::<E>(nr, nc, order)).ok());
    cx.nontrivial = true;
    cx.evals = 8;
    for _ in 0..8 {
        let (r, c) = (draw_value(src, nr), draw_value(src, nc));
        cx.note(|| format!("({r}, {c}) in {nr}x{nc}"));
        for f in ALL {
            let got = access(&mut m, WrappingIndex::new(r, c), f);
            ensure!(matches!(got, Ok(Ok(_))), "{} of ({r}, {c}) in {nr}x{nc} {order:?} gives {}", NAMES[f], show(&got));
        }
    }
    Ok(())
}

/// No elements, one extent arbitrary.
fn hollow<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let n = match src.idx(4) {
        0 => 0,
        1 => src.idx(9),
        2 => *src.pick(&[usize::MAX, isize::MAX as usize, 1 << 63]),
        _ => src.u64() as usize,
    };
    let (nr, nc) = if src.flip() { (n, 0) } else { (0, n) };
    let order = draw_order(src);
    let mut m = Matrix::<E>::with_capacity(src.idx(6));
    if guard(|| m.reshape((nr, nc)).is_ok()) != Ok(true) {
        cx.label("no matrix");
        return Ok(());
    }
    m.set_order_without_rearrangement(order);
    cx.nontrivial = true;
    cx.evals = 4;
    for _ in 0..4 {
        let (r, c) = (draw_value(src, m.nrows()), draw_value(src, m.ncols()));
        cx.note(|| format!("({r}, {c}) in {}x{}", m.nrows(), m.ncols()));
        none(&mut m, r, c)?;
    }
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "window-u16", f: window::<W16> },
        Suite { name: "window-tracked8", f: window::<Tr8> },
        Suite { name: "drawn-u64", f: drawn::<W64> },
        Suite { name: "drawn-3xu64", f: drawn::<W24> },
        Suite { name: "drawn-u16", f: drawn::<W16> },
        Suite { name: "drawn-wide", f: drawn::<Wide> },
        Suite { name: "huge-unit", f: huge::<Z> },
        Suite { name: "hollow-u64", f: hollow::<W64> },
        Suite { name: "hollow-unit", f: hollow::<Z8> },
        Suite { name: "hollow-string", f: hollow::<St> },
    ])
}
