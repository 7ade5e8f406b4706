//! C04: checked indexing is exact and total.
use matreex::index::AsIndex;
use matreex::{Error, Index, Matrix, Order};
use mxv::engine::guard;
use mxv::*;
use std::cell::RefCell;
use std::rc::Rc;

/// Log of what the accessors returned.
type Log = Rc<RefCell<(Vec<usize>, Vec<usize>)>>;

/// An index whose accessors return `rows[i]`/`cols[i]` on the i-th call (last value afterwards).
#[derive(Clone)]
struct Shifty {
    rows: Vec<usize>,
    cols: Vec<usize>,
    log: Log,
}
impl AsIndex for Shifty {
    fn row(&self) -> usize {
        let mut l = self.log.borrow_mut();
        let v = self.rows[l.0.len().min(self.rows.len() - 1)];
        l.0.push(v);
        v
    }
    fn col(&self) -> usize {
        let mut l = self.log.borrow_mut();
        let v = self.cols[l.1.len().min(self.cols.len() - 1)];
        l.1.push(v);
        v
    }
}

struct Named(usize, usize);
impl AsIndex for Named {
    fn row(&self) -> usize {
        self.0
    }
    fn col(&self) -> usize {
        self.1
    }
}

/// (byte offset from the buffer or usize::MAX for "no address", value) or the error
type Got = Result<(usize, u64), Error>;

fn off<E: Elem>(base: usize, e: &E) -> (usize, u64) {
    (if E::ZST { 0 } else { (e as *const E as usize).wrapping_sub(base) }, e.val())
}

const KINDS: usize = 8;
const KIND_NAMES: [&str; KINDS] = [
    "get(tuple)",
    "get(array)",
    "get(Index)",
    "get(custom)",
    "get_mut(tuple)",
    "get_mut(array)",
    "get_mut(Index)",
    "get_mut(custom)",
];

fn checked<E: Elem>(m: &mut Matrix<E>, base: usize, kind: usize, r: usize, c: usize) -> Result<Got, String> {
    guard(|| match kind {
        0 => m.get((r, c)).map(|e| off(base, e)),
        1 => m.get([r, c]).map(|e| off(base, e)),
        2 => m.get(Index::new(r, c)).map(|e| off(base, e)),
        3 => m.get(Named(r, c)).map(|e| off(base, e)),
        4 => m.get_mut((r, c)).map(|e| off(base, e)),
        5 => m.get_mut([r, c]).map(|e| off(base, e)),
        6 => m.get_mut(Index::new(r, c)).map(|e| off(base, e)),
        _ => m.get_mut(Named(r, c)).map(|e| off(base, e)),
    })
}

fn bracket<E: Elem>(m: &mut Matrix<E>, base: usize, kind: usize, r: usize, c: usize) -> Result<(usize, u64), String> {
    guard(|| match kind {
        0 => off(base, &m[(r, c)]),
        1 => off(base, &m[[r, c]]),
        2 => off(base, &m[Index::new(r, c)]),
        3 => off(base, &m[Named(r, c)]),
        4 => off(base, &mut m[(r, c)]),
        5 => off(base, &mut m[[r, c]]),
        6 => off(base, &mut m[Index::new(r, c)]),
        _ => off(base, &mut m[Named(r, c)]),
    })
}

fn base_of<E: Elem>(m: &Matrix<E>) -> usize {
    m.iter_elements().next().map_or(0, |e| e as *const E as usize)
}

/// one (matrix, index pair): every access form
fn judge<E: Elem>(m: &mut Matrix<E>, md: &Model, r: usize, c: usize, brackets: bool) -> R {
    let base = base_of(m);
    let want: Got = if r < md.nr && c < md.nc {
        let o = if E::ZST { 0 } else { flat(md.order, md.nr, md.nc, r, c) * size_of::<E>() };
        Ok((o, md.at(r, c)))
    } else {
        Err(Error::IndexOutOfBounds)
    };
    for kind in 0..KINDS {
        let what = || format!("{} of ({r},{c}) on {}x{} {:?}", KIND_NAMES[kind], md.nr, md.nc, md.order);
        let got = checked(m, base, kind, r, c).map_err(|p| format!("{} panics: {p}", what()))?;
        ensure!(got == want, "{}: (offset, value) is {got:?} instead of {want:?}", what());
        if brackets {
            let got = bracket(m, base, kind, r, c);
            match (&got, &want) {
                (Ok(g), Ok(w)) => ensure!(g == w, "[] form of {}: {g:?} instead of {w:?}", what()),
                (Err(_), Err(_)) => {}
                _ => return Err(format!("[] form of {}: {got:?} instead of {want:?}", what())),
            }
        }
    }
    ledger::check()
}

/// index values which look valid to arithmetic that wraps: x with x*stride + y in 0..size mod 2^64
fn wrapping_value(src: &mut Src, stride: usize, size: usize) -> usize {
    if stride == 0 {
        return src.u64() as usize;
    }
    let target = src.idx(size.max(1)) as u64;
    let z = (stride as u64).trailing_zeros();
    let odd = (stride as u64) >> z;
    // x*stride = target (mod 2^64) is solvable iff 2^z | target
    let t = target >> z;
    let base = inv(odd).wrapping_mul(t);
    let high = if z == 0 { 0 } else { src.below(1 << z.min(6)) << (64 - z) };
    base.wrapping_add(high) as usize
}

fn extreme(src: &mut Src, n: usize, stride: usize, size: usize) -> usize {
    match src.idx(9) {
        0 => n,
        1 => n.wrapping_add(1 + src.idx(3)),
        2 => usize::MAX - src.idx(3),
        3 => (isize::MAX as usize).wrapping_add(src.idx(3)).wrapping_sub(1),
        4 => 1usize << (1 + src.idx(63)),
        5 => wrapping_value(src, stride, size),
        6 => size.wrapping_add(src.idx(3)),
        7 => 0usize.wrapping_sub(1 + src.idx(n + 1)),
        _ => src.u64() as usize,
    }
}

fn construct<E: Elem>(src: &mut Src, md: &Model) -> Option<(Matrix<E>, Model)> {
    let m = guard(|| build::<E>(src, md)).ok()?;
    let md = observe_mem(&m)?;
    Some((m, md))
}

fn near<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    // every pair in and just around the matrix, for every small shape
    let max = if cx.miri { 3 } else { 7 + 3 * cx.scale as usize };
    let (nr, nc) = draw_shape(src, max);
    let order = draw_order(src);
    let md = Model::new(order, nr, nc, distinct::<E>(nr * nc, 1));
    let (mut m, md) = made!(cx, construct::<E>(src, &md));
    let (nr, nc) = (md.nr, md.nc);
    cx.evals = 0;
    for r in 0..nr + 3 {
        for c in 0..nc + 3 {
            judge(&mut m, &md, r, c, true)?;
            cx.evals += 1;
            if r >= nr || c >= nc {
                cx.keys.push((r * 64 + c) as u64);
            }
        }
    }
    cx.note(|| format!("all pairs in 0..{} x 0..{} on {}", nr + 3, nc + 3, md.show()));
    ensure!(observe_mem(&m).as_ref() == Some(&md), "indexing changed the matrix");
    Ok(())
}

fn far<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let md = draw_any_model::<E>(src, if cx.miri { 4 } else { 9 }, 60, 1);
    let (mut m, md) = made!(cx, construct::<E>(src, &md));
    cx.note(|| md.show());
    cx.evals = 0;
    for i in 0..if cx.miri { 6 } else { 24u64 } {
        let (sr, sc) = match md.order {
            Order::RowMajor => (md.nc, 1),
            Order::ColMajor => (1, md.nr),
        };
        let valid = |src: &mut Src, n: usize| if n == 0 { 0 } else { src.idx(n) };
        let (r, c) = match src.idx(3) {
            0 => (extreme(src, md.nr, sr, md.size()), valid(src, md.nc)),
            1 => (valid(src, md.nr), extreme(src, md.nc, sc, md.size())),
            _ => (extreme(src, md.nr, sr, md.size()), extreme(src, md.nc, sc, md.size())),
        };
        cx.note(|| format!("({r},{c})"));
        judge(&mut m, &md, r, c, i % 4 == 0)?;
        cx.evals += 1;
        if r >= md.nr || c >= md.nc {
            cx.keys.push(i);
        }
    }
    ensure!(observe_mem(&m).as_ref() == Some(&md), "indexing changed the matrix");
    Ok(())
}

/// Accessors that change their answer between calls.
fn shifty<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let md = draw_model::<E>(src, 4, 1);
    let (mut m, md) = made!(cx, construct::<E>(src, &md));
    let base = base_of(&m);
    let val = |src: &mut Src, n: usize| match src.idx(5) {
        0 => n,
        1 => *src.pick(&[usize::MAX, 1 << 63, 1 << 40]),
        2 => n + src.idx(40),
        _ => {
            if n == 0 {
                0
            } else {
                src.idx(n)
            }
        }
    };
    let rows: Vec<usize> = (0..1 + src.idx(4)).map(|_| val(src, md.nr)).collect();
    let cols: Vec<usize> = (0..1 + src.idx(4)).map(|_| val(src, md.nc)).collect();
    cx.note(|| format!("{} row() answers {rows:?}, col() answers {cols:?}", md.show()));
    let form = src.idx(4);
    let mk = || {
        let log: Log = Default::default();
        (Shifty { rows: rows.clone(), cols: cols.clone(), log: log.clone() }, log)
    };
    let (ix, log) = mk();
    // Ok(offset), Err(error), or a panic (only [] may)
    let got: Result<Got, String> = match form {
        0 => guard(|| m.get(ix).map(|e| off(base, e))),
        1 => guard(|| m.get_mut(ix).map(|e| off(base, e))),
        2 => Ok(guard(|| off(base, &m[ix])).map_err(|_| Error::IndexOutOfBounds)),
        _ => Ok(guard(|| off(base, &mut m[ix])).map_err(|_| Error::IndexOutOfBounds)),
    };
    let got = got.map_err(|p| format!("checked access panics: {p}"))?;
    let (rs, cs) = &*log.borrow();
    // whatever was answered: the result must be explained by some pair of answers that were given
    let pairs: Vec<(usize, usize)> = rs.iter().flat_map(|&r| cs.iter().map(move |&c| (r, c))).collect();
    let valid = |&(r, c): &(usize, usize)| r < md.nr && c < md.nc;
    match got {
        Ok((o, v)) => {
            let ok = pairs.iter().any(|p| {
                valid(p) && v == md.at(p.0, p.1) && (E::ZST || o == flat(md.order, md.nr, md.nc, p.0, p.1) * size_of::<E>())
            });
            ensure!(ok, "access through row()={rs:?} col()={cs:?} reached offset {o} (value {v}), which no valid pair of these answers names");
        }
        Err(Error::IndexOutOfBounds) => {
            let ok = pairs.iter().any(|p| !valid(p)) || pairs.is_empty();
            ensure!(ok, "access through row()={rs:?} col()={cs:?} fails although every such pair is valid");
        }
        Err(e) => return Err(format!("access fails with {e:?}")),
    }
    // consistent answers leave no room at all
    if rows.len() == 1 && cols.len() == 1 {
        ensure!(got.is_ok() == valid(&(rows[0], cols[0])), "({},{}) gives {got:?}", rows[0], cols[0]);
    }
    cx.nontrivial = rows.len() > 1 || cols.len() > 1;
    cx.label_if(got.is_err(), "rejected");
    ensure!(observe_mem(&m).as_ref() == Some(&md), "access changed the matrix");
    ledger::check()
}

/// Shapes near usize::MAX are possible for zero-sized elements.
fn huge<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = huge_shape(src);
    let order = draw_order(src);
    let mut m: Matrix<E> = huge_zst(nr, nc, order);
    cx.note(|| format!("{nr}x{nc} {order:?} of zero-sized elements"));
    let pick = |src: &mut Src, n: usize| match src.idx(6) {
        0 => n - 1,
        1 => n,
        2 => n.saturating_add(1),
        3 => usize::MAX - src.idx(2),
        4 => src.below(n as u64) as usize,
        _ => src.u64() as usize,
    };
    for i in 0..6 {
        let (r, c) = (pick(src, nr), pick(src, nc));
        cx.note(|| format!("({r},{c})"));
        let want = if r < nr && c < nc { Ok((0, 0)) } else { Err(Error::IndexOutOfBounds) };
        for kind in 0..KINDS {
            let got = checked(&mut m, 0, kind, r, c).map_err(|p| format!("{} of ({r},{c}) on {nr}x{nc} {order:?} panics: {p}", KIND_NAMES[kind]))?;
            ensure!(got == want, "{} of ({r},{c}) on {nr}x{nc} {order:?}: {got:?} instead of {want:?}", KIND_NAMES[kind]);
        }
        let b = bracket(&mut m, 0, i % KINDS, r, c);
        ensure!(b.is_ok() == want.is_ok(), "[({r},{c})] on {nr}x{nc} {order:?}: {b:?}");
        cx.keys.push(i as u64);
    }
    cx.evals = 6;
    Ok(())
}

/// Matrices without elements but with a huge extent.
fn hollow<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let n = *src.pick(&[1usize, 7, 1 << 32, isize::MAX as usize, usize::MAX]);
    let (nr, nc) = if src.flip() { (n, 0) } else { (0, n) };
    let mut m: Matrix<E> = Matrix::with_default((nr, nc)).map_err(|e| format!("with_default(({nr},{nc})): {e}"))?;
    if src.flip() {
        m.switch_order_without_rearrangement();
        m.transpose();
    }
    let md = Model::new(m.order(), nr, nc, vec![]);
    ensure!((m.nrows(), m.ncols()) == (nr, nc), "shape {:?}", m.shape());
    for i in 0..6 {
        let v = |src: &mut Src| *src.pick(&[0usize, 1, n - 1, n, usize::MAX, isize::MAX as usize]);
        let (r, c) = (v(src), v(src));
        cx.note(|| format!("{nr}x{nc}: ({r},{c})"));
        judge(&mut m, &md, r, c, true)?;
        cx.keys.push(i);
    }
    cx.evals = 6;
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "near-u8", f: near::<W8> },
        Suite { name: "near-tracked4", f: near::<Tr4> },
        Suite { name: "near-3xu64", f: near::<W24> },
        Suite { name: "near-wide", f: near::<Wide> },
        Suite { name: "near-unit", f: near::<Z> },
        Suite { name: "far-u8", f: far::<W8> },
        Suite { name: "far-3xu64", f: far::<W24> },
        Suite { name: "far-unit", f: far::<Z> },
        Suite { name: "shifty-tracked4", f: shifty::<Tr4> },
        Suite { name: "shifty-u64", f: shifty::<W64> },
        Suite { name: "huge-unit", f: huge::<Z> },
        Suite { name: "huge-unit-align8", f: huge::<Z8> },
        Suite { name: "hollow-u64", f: hollow::<W64> },
    ])
}
