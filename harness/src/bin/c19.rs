//! C19: constructors, conversions and macros build exactly the described matrix, or fail.
// (row_vec![] and col_vec![] end in a semicolon)
#![allow(unknown_lints, semicolon_in_expressions_from_macros, semicolon_in_expressions_from_non_local_macros)]
use matreex::{Error, Matrix, Order, Shape, col_vec, matrix, row_vec};
use mxv::child::*;
use mxv::engine::guard;
use mxv::*;
use std::collections::VecDeque;
use std::mem::MaybeUninit;

#[global_allocator]
static GUARDED: Guarded = Guarded;

/// Row lengths: equal ones, or differing at any position by any amount, also with a matching total.
fn lengths(src: &mut Src, cx: &mut Cx, max: usize) -> Vec<usize> {
    if src.is_exhaustive() {
        let n = src.idx(5 + cx.scale as usize);
        return (0..n).map(|_| src.idx(4)).collect();
    }
    let nr = match src.idx(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => src.range(1, max),
    };
    let nc = match src.idx(8) {
        0 => 0,
        1 => 1,
        _ => src.range(1, max),
    };
    let mut l = vec![nc; nr];
    if nr < 2 {
        return l;
    }
    let spot = |src: &mut Src| match src.idx(4) {
        0 => 0,
        1 => nr - 1,
        _ => src.idx(nr),
    };
    match src.idx(7) {
        // one row differs
        0 | 1 => {
            let at = spot(src);
            l[at] = match src.idx(6) {
                0 => nc + 1,
                1 => nc.saturating_sub(1),
                2 => 0,
                3 => nc * 2,
                4 => nc / 2,
                _ => src.idx(2 * max),
            };
        }
        // two rows differ, the total matches
        2 | 6 => {
            let (a, b) = (spot(src), spot(src));
            let b = if a == b { (a + 1) % nr } else { b };
            let d = src.range(1, nc.max(1));
            if nc >= d {
                l[a] += d;
                l[b] -= d;
            }
        }
        // one row has it all
        3 => {
            let at = spot(src);
            l = vec![0; nr];
            l[at] = nr * nc;
        }
        // anything
        4 => {
            for x in l.iter_mut() {
                *x = src.idx(max);
            }
        }
        _ => {}
    }
    l
}

struct Rows {
    vals: Vec<Vec<u64>>,
    /// number of elements of a row, if they agree
    nc: Option<usize>,
}

fn rows_of<E: Elem>(l: &[usize]) -> Rows {
    let mut v = 0;
    let vals = l
        .iter()
        .map(|&n| {
            (0..n)
                .map(|_| {
                    v += 1;
                    E::norm(100 + v)
                })
                .collect()
        })
        .collect();
    let nc = match l.first() {
        None => Some(0),
        Some(&n) => l.iter().all(|&x| x == n).then_some(n),
    };
    Rows { vals, nc }
}

fn vecs<E: Elem>(r: &Rows) -> Vec<Vec<E>> {
    r.vals
        .iter()
        .enumerate()
        .map(|(k, row)| {
            let mut v = Vec::with_capacity(row.len() + (k % 3) * 4);
            v.extend(row.iter().map(|&x| E::mk(x)));
            v
        })
        .collect()
}
fn arrays<E: Elem, const C: usize>(r: &Rows) -> Vec<[E; C]> {
    r.vals.iter().map(|row| std::array::from_fn(|j| E::mk(row[j]))).collect()
}
fn idlist<E: Elem>(v: &[Vec<E>]) -> Vec<u32> {
    v.iter().flatten().map(|e| e.id()).collect()
}

/// Must be the matrix with these rows (and these elements, if identities are given).
fn built<E: Elem>(what: &str, m: &Matrix<E>, rows: &[Vec<u64>], nc: usize, order: Order, ids: Option<&[u32]>) -> R {
    let got = coherent(m).map_err(|e| format!("{what}: {e}"))?;
    ensure!((got.nr, got.nc) == (rows.len(), nc), "{what} is {}x{} instead of {}x{nc}", got.nr, got.nc, rows.len());
    ensure!(got.d == rows.concat(), "{what} has rows {} instead of {rows:?}", got.show());
    ensure!(got.order == order, "{what} is {order:?}");
    if let Some(ids) = ids {
        ensure!(lids(m) == ids, "{what} does not consist of the given elements: {:?} instead of {ids:?}", lids(m));
    }
    Ok(())
}

/// Judges a fallible conversion.
fn judged<E: Elem>(what: &str, got: Result<Result<Matrix<E>, Error>, String>, r: &Rows, ids: Option<&[u32]>, live: i64) -> R {
    match (got, r.nc) {
        (Err(p), _) => Err(format!("{what} panics: {p}")),
        (Ok(Ok(m)), Some(nc)) => built(what, &m, &r.vals, nc, Order::RowMajor, ids),
        (Ok(Err(e)), Some(_)) => Err(format!("{what} fails with {e:?}")),
        (Ok(Ok(m)), None) => Err(format!("{what} is accepted as a {}x{} matrix", m.nrows(), m.ncols())),
        (Ok(Err(e)), None) => {
            ensure!(e == Error::LengthInconsistent, "{what} fails with {e:?} instead of LengthInconsistent");
            ensure!(ledger::live() == live, "{what}: {} elements of the rejected rows are alive", ledger::live() - live);
            ledger::check().map_err(|e| format!("{what}: {e}"))
        }
    }
}

/// An iterator whose size hint need not be right.
struct Hinted<I>(I, usize);
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => self.0.size_hint(),
            1 => (0, None),
            2 => (0, Some(0)),
            3 => (17, Some(17)),
            _ => (1, Some(1)),
        }
    }
}
struct Row<I>(I, usize);
impl<I: Iterator> IntoIterator for Row<I> {
    type Item = I::Item;
    type IntoIter = Hinted<I>;
    fn into_iter(self) -> Hinted<I> {
        Hinted(self.0, self.1)
    }
}

macro_rules! with_const {
    ($n:expr, $c:ident, $body:expr, $($k:literal)*) => {
        match $n {
            $($k => { const $c: usize = $k; $body })*
            _ => unreachable!(),
        }
    };
}

fn conversions<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let max = if cx.miri { 3 } else if !src.is_exhaustive() && src.chance(1, 20) { 50 } else { 7 };
    let l = lengths(src, cx, max);
    let r = rows_of::<E>(&l);
    let hint = src.idx(5);
    let sparse = src.is_exhaustive() && hint != 0; // (exhaustively: only the FromIterator forms depend on it)
    cx.note(|| format!("rows of lengths {l:?}, hints {hint}"));
    cx.nontrivial = r.nc.is_none() || r.vals.len() >= 2 && r.nc > Some(1);
    match &r.nc {
        None => {
            let total: usize = l.iter().sum();
            cx.label("ragged");
            cx.label_if(total == l.len() * l[0], "ragged, total as the first row suggests");
            let odd = l.iter().filter(|&&x| x != l[0]).count();
            cx.label_if(l.len() > 2 && odd == l.len() - 1 && l[1..].iter().all(|&x| x == l[1]), "first row odd");
            cx.label_if(odd == 1 && l.last() != Some(&l[0]), "last row odd");
            cx.label_if(odd == 1 && l.last() == Some(&l[0]), "middle row odd");
        }
        Some(0) => cx.label("no elements"),
        Some(_) => {}
    }
    cx.evals = 0;
    macro_rules! go {
        ($name:expr, $ids:expr, $live:expr, $f:expr) => {{
            cx.evals += 1;
            let what = format!("{} of {:?}", $name, r.vals);
            judged::<E>(&what, guard($f), &r, $ids, $live)?;
        }};
    }

    let live = ledger::live();
    if !sparse {
        let v = vecs::<E>(&r);
        let ids = idlist(&v);
        go!("TryFrom<Vec<Vec<T>>>", Some(&ids), live, move || Matrix::try_from(v));

        let v = vecs::<E>(&r);
        let here = idlist(&v);
        let before = ledger::live();
        go!("TryFrom<&[Vec<T>]>", None, before, || Matrix::try_from(v.as_slice()));
        ensure!(idlist(&v) == here && v.iter().map(|x| x.iter().map(|e| e.val()).collect::<Vec<_>>()).eq(r.vals.iter().cloned()),
            "TryFrom<&[Vec<T>]> of {:?} changes the borrowed rows", r.vals);
        drop(v);

        if l.len() <= 7 {
            with_const!(l.len(), N, {
                let v = vecs::<E>(&r);
                let ids = idlist(&v);
                let mut it = v.into_iter();
                let a: [Vec<E>; N] = std::array::from_fn(|_| it.next().unwrap());
                drop(it);
                go!("TryFrom<[Vec<T>; N]>", Some(&ids), live, move || Matrix::try_from(a));
            }, 0 1 2 3 4 5 6 7);
        }
        if let Some(nc) = r.nc {
            // zero rows: every number of columns exists as a type
            let nc = if l.is_empty() && !src.is_exhaustive() { src.idx(8) } else { nc };
            let r = Rows { vals: r.vals.clone(), nc: Some(nc) };
            if nc <= 7 {
                with_const!(nc, C, {
                    let v = arrays::<E, C>(&r);
                    let ids: Vec<u32> = v.iter().flatten().map(|e| e.id()).collect();
                    cx.evals += 3;
                    let what = format!("From<&[[T; {C}]]> of {:?}", r.vals);
                    judged::<E>(&what, guard(|| Ok(Matrix::from(v.as_slice()))), &r, None, 0)?;
                    ensure!(ids == v.iter().flatten().map(|e| e.id()).collect::<Vec<_>>()
                        && v.iter().flatten().map(|e| e.val()).eq(r.vals.concat()), "{what} changes the borrowed rows");
                    let what = format!("From<Vec<[T; {C}]>> of {:?}", r.vals);
                    judged::<E>(&what, guard(move || Ok(Matrix::from(v))), &r, Some(&ids), live)?;
                    macro_rules! nested {
                        ($r:literal) => {{
                            let mut it = arrays::<E, C>(&r).into_iter();
                            let a: [[E; C]; $r] = std::array::from_fn(|_| it.next().unwrap());
                            drop(it);
                            let ids: Vec<u32> = a.iter().flatten().map(|e| e.id()).collect();
                            let what = format!("From<[[T; {C}]; {}]> of {:?}", $r, r.vals);
                            judged::<E>(&what, guard(move || Ok(Matrix::from(a))), &r, Some(&ids), live)?;
                        }};
                    }
                    match r.vals.len() {
                        0 => nested!(0),
                        1 => nested!(1),
                        2 => nested!(2),
                        3 => nested!(3),
                        4 => nested!(4),
                        _ => {}
                    }
                }, 0 1 2 3 4 5 6 7);
            }
        }
    }

    // rows from iterators; ragged rows make it panic
    for form in 0..5 {
        cx.evals += 1;
        let name = ["a Vec of Vecs", "a Vec of VecDeques", "hinted rows", "hinted rows, hinted outside", "rows cloned one by one"][form];
        let what = format!("FromIterator over {name} (hints {hint}) of {:?}", r.vals);
        let v = vecs::<E>(&r);
        let ids = idlist(&v);
        let (got, ids): (Result<Matrix<E>, String>, _) = match form {
            0 => (guard(move || v.into_iter().collect()), Some(ids)),
            1 => (guard(move || v.into_iter().map(VecDeque::from).collect()), Some(ids)),
            2 => (guard(move || v.into_iter().map(|r| Row(r.into_iter(), hint)).collect()), Some(ids)),
            3 => (guard(move || Hinted(v.into_iter().map(|r| Row(r.into_iter(), 0)), hint).collect()), Some(ids)),
            _ => (guard(|| Matrix::from_iter(v.iter().map(|r| r.iter().cloned()))), None),
        };
        match (got, r.nc) {
            (Ok(m), Some(nc)) => built(&what, &m, &r.vals, nc, Order::RowMajor, ids.as_deref())?,
            (Err(_), None) => {
                if form < 4 {
                    ensure!(ledger::live() == live, "{what}: {} elements of the rejected rows are alive", ledger::live() - live);
                }
            }
            (Err(p), Some(_)) => return Err(format!("{what} panics: {p}")),
            (Ok(m), None) => return Err(format!("{what} is accepted as a {}x{} matrix", m.nrows(), m.ncols())),
        }
    }
    // references to the elements
    let v = vecs::<E>(&r);
    let got = guard(|| v.iter().collect::<Matrix<&E>>());
    match (&got, r.nc) {
        (Ok(m), Some(nc)) => {
            ensure!((m.nrows(), m.ncols(), m.size()) == (l.len(), nc, l.len() * nc), "FromIterator of references to {:?} is {}x{}", r.vals, m.nrows(), m.ncols());
            for i in 0..if nc == 0 { 0 } else { l.len() } {
                for j in 0..nc {
                    let same = m.get((i, j)).is_ok_and(|e| std::ptr::eq(*e, &v[i][j]));
                    ensure!(same, "FromIterator of references to {:?}: ({i},{j}) is not the reference given there", r.vals);
                }
            }
        }
        (Err(_), None) => {}
        _ => return Err(format!("FromIterator of references to {:?}: {}", r.vals, if got.is_ok() { "accepted" } else { "panics" })),
    }
    drop(got);
    drop(v);
    ensure!(ledger::live() == live, "conversions of {:?} leave {} elements alive", r.vals, ledger::live() - live);
    ledger::check()
}

/// from_row and from_col
fn vectors<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let max = if src.is_exhaustive() { 8 } else if src.chance(1, 20) { 300 } else { 9 };
    let n = src.idx(max);
    let col = src.flip();
    let form = src.idx(6);
    let vals: Vec<u64> = (0..n as u64).map(|i| E::norm(50 + i)).collect();
    let name = if col { "from_col" } else { "from_row" };
    let kind = ["Vec", "&[T]", "Box<[T]>", "VecDeque", "array", "&mut [T]"][form];
    let what = format!("{name}({kind}) of {n} elements");
    cx.note(|| what.clone());
    cx.nontrivial = n >= 2;
    let v: Vec<E> = vals.iter().map(|&x| E::mk(x)).collect();
    let mut ids: Option<Vec<u32>> = Some(v.iter().map(|e| e.id()).collect());
    fn mk<E: Elem, S: Into<Vec<E>>>(col: bool, s: S) -> Result<Matrix<E>, String> {
        guard(|| if col { Matrix::from_col(s) } else { Matrix::from_row(s) })
    }
    let m = match form {
        0 => mk::<E, _>(col, v),
        1 => {
            ids = None;
            let v = v;
            mk::<E, _>(col, &v[..])
        }
        2 => mk::<E, _>(col, v.into_boxed_slice()),
        3 => {
            // a deque that wraps round
            let mut d: VecDeque<E> = VecDeque::with_capacity(n + 2);
            let k = n / 2;
            let mut it = v.into_iter();
            let head: Vec<E> = it.by_ref().take(k).collect();
            d.extend(it);
            for e in head.into_iter().rev() {
                d.push_front(e);
            }
            mk::<E, _>(col, d)
        }
        4 => {
            let mut it = v.into_iter();
            macro_rules! arr {
                ($($k:literal)*) => {
                    match n {
                        $($k => { let a: [E; $k] = std::array::from_fn(|_| it.next().unwrap()); mk::<E, _>(col, a) })*
                        _ => mk::<E, _>(col, it.collect::<Vec<E>>()),
                    }
                };
            }
            arr!(0 1 2 3 4 5 6 7)
        }
        _ => {
            ids = None;
            let mut v = v;
            mk::<E, _>(col, &mut v[..])
        }
    };
    let m = m.map_err(|p| format!("{what} panics: {p}"))?;
    let rows: Vec<Vec<u64>> = if col { vals.iter().map(|&v| vec![v]).collect() } else { vec![vals] };
    built(&what, &m, &rows, if col { 1 } else { n }, Order::default(), ids.as_deref())?;
    drop(m);
    ensure!(ledger::live() == 0, "{what} leaves {} elements alive", ledger::live());
    ledger::check()
}

/// with_value, with_default, with_initializer
fn filled<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = if !src.is_exhaustive() && !cx.miri && src.chance(1, 20) {
        draw_large(src)
    } else if !src.is_exhaustive() && src.chance(1, 20) {
        // without elements, but of any extent
        let n = src.u64() as usize;
        if src.flip() { (0, n) } else { (n, 0) }
    } else {
        let k = if cx.miri { 3 } else { 6 };
        draw_shape(src, k)
    };
    let shape = src.idx(3);
    let kind = src.idx(3);
    let what = format!("{}({nr}x{nc})", ["with_value", "with_default", "with_initializer"][kind]);
    cx.note(|| what.clone());
    cx.nontrivial = nr >= 2 && nc >= 2;
    let mut log: Vec<(usize, usize)> = vec![];
    let mut made_ids: Vec<u32> = vec![];
    let stamp = |r: usize, c: usize| E::norm(1 + r as u64 * 1000 + c as u64);
    macro_rules! go {
        ($s:expr) => {
            match kind {
                0 => guard(|| Matrix::with_value($s, E::mk(E::norm(77)))),
                1 => guard(|| Matrix::with_default($s)),
                _ => guard(|| {
                    Matrix::with_initializer($s, |i| {
                        log.push((i.row, i.col));
                        let e = E::mk(stamp(i.row, i.col));
                        made_ids.push(e.id());
                        e
                    })
                }),
            }
        };
    }
    let got = match shape {
        0 => go!((nr, nc)),
        1 => go!([nr, nc]),
        _ => go!(Shape::new(nr, nc)),
    };
    let m = got.map_err(|p| format!("{what} panics: {p}"))?.map_err(|e| format!("{what} fails with {e:?}"))?;
    ensure!((m.nrows(), m.ncols()) == (nr, nc), "{what} is {}x{}", m.nrows(), m.ncols());
    if nr == 0 || nc == 0 {
        ensure!(m.size() == 0 && m.iter_elements().next().is_none() && log.is_empty(), "{what} has elements");
        drop(m);
        ensure!(ledger::live() == 0, "{what} leaves {} elements alive", ledger::live());
        return ledger::check();
    }
    let want = |r: usize, c: usize| match kind {
        0 => E::norm(77),
        1 => E::default_val(),
        _ => stamp(r, c),
    };
    let rows: Vec<Vec<u64>> = (0..nr).map(|r| (0..nc).map(|c| want(r, c)).collect()).collect();
    built(&what, &m, &rows, nc, Order::default(), None)?;
    if kind == 2 {
        // once per position, and what it returned then is what is there
        let ids = lids(&m);
        ensure!(log.len() == nr * nc, "{what} calls its closure {} times", log.len());
        for (k, &(r, c)) in log.iter().enumerate() {
            ensure!(r < nr && c < nc, "{what} calls its closure with ({r},{c})");
            ensure!(ids[r * nc + c] == made_ids[k], "{what}: the element at ({r},{c}) is not the one returned for it");
        }
        let mut all = log.clone();
        all.sort();
        all.dedup();
        ensure!(all.len() == nr * nc, "{what} calls its closure twice with one position");
    }
    drop(m);
    ensure!(ledger::live() == 0, "{what} leaves {} elements alive", ledger::live());
    ledger::check()
}

fn macros<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let form = src.idx(20);
    let (nr, nc) = (src.idx(6), src.idx(6));
    cx.note(|| format!("macro form {form}, {nr} {nc}"));
    cx.nontrivial = form > 2;
    let mut n = 0u64;
    let mut e = || {
        n += 1;
        E::mk(E::norm(100 + n))
    };
    let v = |k: &[u64]| -> Vec<u64> { k.iter().map(|&k| E::norm(100 + k)).collect() };
    // the matrix, its rows, its number of columns, how often an element expression is evaluated
    let got = guard(|| -> (&str, Matrix<E>, Vec<Vec<u64>>, usize, u64) {
        match form {
            0 => ("matrix![]", matrix![], vec![], 0, 0),
            1 => ("row_vec![]", { let m: Matrix<E> = row_vec![]; m }, vec![vec![]], 0, 0),
            2 => ("col_vec![]", { let m: Matrix<E> = col_vec![]; m }, vec![], 1, 0),
            3 => ("matrix![[e; nc]; nr]", matrix![[e(); nc]; nr], vec![v(&vec![1; nc]); nr], nc, 1),
            4 => ("matrix![[e, e, e]; nr]", matrix![[e(), e(), e()]; nr], vec![v(&[1, 2, 3]); nr], 3, 3),
            5 => ("matrix![[e, e,]; nr]", matrix![[e(), e(),]; nr], vec![v(&[1, 2]); nr], 2, 2),
            6 => ("matrix![[e]; nr]", matrix![[e()]; nr], vec![v(&[1]); nr], 1, 1),
            7 => ("matrix![[e, e, e], [e, e, e]]", matrix![[e(), e(), e()], [e(), e(), e()]], vec![v(&[1, 2, 3]), v(&[4, 5, 6])], 3, 6),
            8 => ("matrix![[e, e], [e, e], [e, e],]", matrix![[e(), e()], [e(), e()], [e(), e()],], vec![v(&[1, 2]), v(&[3, 4]), v(&[5, 6])], 2, 6),
            9 => ("matrix![[e], [e]]", matrix![[e()], [e()]], vec![v(&[1]), v(&[2])], 1, 2),
            10 => ("matrix![[e, e, e]]", matrix![[e(), e(), e()]], vec![v(&[1, 2, 3])], 3, 3),
            11 => ("matrix![[e]]", matrix![[e()]], vec![v(&[1])], 1, 1),
            12 => ("matrix![[], []]", { let m: Matrix<E> = matrix![[], []]; m }, vec![vec![]; 2], 0, 0),
            13 => ("matrix![[], [], [],]", { let m: Matrix<E> = matrix![[], [], [],]; m }, vec![vec![]; 3], 0, 0),
            14 => {
                let (a, b) = ([e(), e()], [e(), e()]);
                ("matrix![b, a]", matrix![b, a], vec![v(&[3, 4]), v(&[1, 2])], 2, 4)
            }
            15 => ("row_vec![e; nc]", row_vec![e(); nc], vec![v(&vec![1; nc])], nc, 1),
            16 => ("row_vec![e, e, e,]", row_vec![e(), e(), e(),], vec![v(&[1, 2, 3])], 3, 3),
            17 => ("col_vec![e; nr]", col_vec![e(); nr], vec![v(&[1]); nr], 1, 1),
            18 => ("col_vec![e, e, e, e]", col_vec![e(), e(), e(), e()], vec![v(&[1]), v(&[2]), v(&[3]), v(&[4])], 1, 4),
            _ => ("row_vec![e]", row_vec![e()], vec![v(&[1])], 1, 1),
        }
    });
    let (what, m, rows, cols, times) = got.map_err(|p| format!("macro form {form} panics: {p}"))?;
    let what = &format!("{what} (nr {nr}, nc {nc})");
    // only elements of n x 0 rows are not looked at one by one
    if rows.is_empty() || cols == 0 {
        ensure!((m.nrows(), m.ncols(), m.size()) == (rows.len(), cols, 0), "{what} is {}x{}", m.nrows(), m.ncols());
        coherent(&m)?;
    } else {
        built(what, &m, &rows, cols, Order::RowMajor, None)?;
    }
    ensure!(n == times, "{what} evaluates its element expressions {n} times in all instead of {times}");
    drop(m);
    ensure!(ledger::live() == 0, "{what} leaves {} elements alive", ledger::live());
    ledger::check()
}

/// A page of memory nobody looks at.
type Page = [MaybeUninit<u8>; 4096];
fn many<T>(n: usize) -> Vec<T> {
    assert!(size_of::<T>() == 0 || std::any::type_name::<T>() == std::any::type_name::<Page>());
    let mut v: Vec<T> = Vec::with_capacity(n);
    // sound: the elements are zero-sized or need no initialisation
    unsafe { v.set_len(n) };
    v
}

fn verdict<T>(r: Result<Matrix<T>, Error>) -> i32 {
    match r {
        Err(Error::LengthInconsistent) => 4,
        Err(Error::SizeOverflow) => 1,
        Err(Error::CapacityOverflow) => 3,
        Err(_) => 99,
        Ok(_) => GOOD,
    }
}

/// Ragged rows for whose first length and number no memory, and no number, is large enough.
fn lopsided(src: &mut Src, cx: &mut Cx) -> R {
    let zst = src.flip();
    let (n, first, rest) = if zst {
        let n = 2 + src.idx(6);
        let first = match src.idx(4) {
            0 => usize::MAX,
            1 => usize::MAX / n + 1,
            2 => 1 << 63,
            _ => usize::MAX / n,
        };
        (n, first, src.idx(3))
    } else {
        (1 << src.range(14, 15), 1 << 13, src.chance(1, 8) as usize)
    };
    // first row long, or the second, or the last
    let odd = [0, 0, 1, n - 1][src.idx(4)];
    let form = src.idx(3);
    let len = |k: usize| if k == odd { first } else { rest };
    let name = ["TryFrom<Vec<Vec<T>>>", "TryFrom<&[Vec<T>]>", "TryFrom<[Vec<T>; N]>"][form];
    let what = format!("{name} of {n} rows of {rest} elements, but {first} in row {odd}, {} bytes each", if zst { 0 } else { 4096 });
    cx.note(|| what.clone());
    cx.nontrivial = true;
    cx.label_if(odd == 0, "first row odd");
    fn go<T: Clone, const N: usize>(n: usize, form: usize, len: &dyn Fn(usize) -> usize) -> i32 {
        let v: Vec<Vec<T>> = if form < 2 { (0..n).map(|k| many(len(k))).collect() } else { vec![] };
        let a: Box<[Vec<T>; N]> = Box::new(std::array::from_fn(|k| if form == 2 { many(len(k)) } else { vec![] }));
        child(|| match form {
            0 => verdict(Matrix::try_from(v)),
            1 => verdict(Matrix::try_from(v.as_slice())),
            _ => verdict(Matrix::try_from(*a)),
        })
    }
    let got = match (zst, form, n) {
        (false, 2, _) => {
            // fewer rows, larger ones
            let len = |k: usize| if k == odd.min(511) { 1 << 18 } else { rest };
            go::<Page, 512>(512, 2, &len)
        }
        (false, ..) => go::<Page, 0>(n, form, &len),
        (true, 2, 2) => go::<(), 2>(n, form, &len),
        (true, 2, 3) => go::<(), 3>(n, form, &len),
        (true, 2, 4) => go::<(), 4>(n, form, &len),
        (true, 2, 5) => go::<(), 5>(n, form, &len),
        (true, 2, 6) => go::<(), 6>(n, form, &len),
        (true, 2, _) => go::<(), 7>(n, form, &len),
        (true, ..) => go::<(), 0>(n, form, &len),
    };
    ensure!(got == 4, "{what} ends in {} instead of LengthInconsistent", code_name(got));
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "conversions-tracked8", f: conversions::<Tr8> },
        Suite { name: "conversions-tracked24", f: conversions::<Tr24> },
        Suite { name: "conversions-string", f: conversions::<St> },
        Suite { name: "conversions-u64", f: conversions::<W64> },
        Suite { name: "conversions-zst", f: conversions::<TrZ1> },
        Suite { name: "conversions-wide", f: conversions::<Wide> },
        Suite { name: "vectors-tracked", f: vectors::<Tr8> },
        Suite { name: "vectors-u16", f: vectors::<W16> },
        Suite { name: "vectors-zst", f: vectors::<TrZ8> },
        Suite { name: "filled-tracked", f: filled::<Tr8> },
        Suite { name: "filled-u16", f: filled::<W16> },
        Suite { name: "filled-string", f: filled::<St> },
        Suite { name: "filled-zst", f: filled::<TrZ1> },
        Suite { name: "filled-wide", f: filled::<TrWide> },
        Suite { name: "macros-tracked", f: macros::<Tr8> },
        Suite { name: "macros-string", f: macros::<St> },
        Suite { name: "macros-zst", f: macros::<TrZ1> },
        Suite { name: "lopsided", f: lopsided },
    ])
}
