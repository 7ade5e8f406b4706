//! C06: all row and column views present the same logical matrix.
use matreex::{Error, Matrix};
use mxv::drive::{Script, drive};
use mxv::engine::guard;
use mxv::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum View {
    All,
    AllMut,
    Nth,
    NthMut,
}
const VIEWS: [View; 4] = [View::All, View::AllMut, View::Nth, View::NthMut];

/// byte offset from the first element (0 for zero-sized) and value
fn see<E: Elem>(base: usize, e: &E) -> (usize, u64) {
    (if E::ZST { 0 } else { (e as *const E as usize).wrapping_sub(base) }, e.val())
}

struct Want {
    md: Model,
    rows: bool,
    size: usize,
}
impl Want {
    /// number of vectors and their length
    fn dims(&self) -> (usize, usize) {
        if self.rows { (self.md.nr, self.md.nc) } else { (self.md.nc, self.md.nr) }
    }
    fn elem(&self, k: usize, i: usize) -> (usize, u64) {
        let (r, c) = if self.rows { (k, i) } else { (i, k) };
        (flat(self.md.order, self.md.nr, self.md.nc, r, c) * self.size, if self.md.d.is_empty() { 0 } else { self.md.at(r, c) })
    }
    fn check(&self, k: usize, i: usize, got: (usize, u64)) -> R {
        let want = self.elem(k, i);
        ensure!(
            got == want,
            "item {i} of {} {k} is (offset, value) {got:?} instead of {want:?}",
            if self.rows { "row" } else { "column" }
        );
        Ok(())
    }
}

/// One view with drawn scripts on the outer and the inner iterators.
fn scripted<E: Elem>(src: &mut Src, m: &mut Matrix<E>, w: &Want, view: View, n: usize, outer: Script, inner: Script) -> R {
    let base = m.iter_elements().next().map_or(0, |e| e as *const E as usize);
    let (count, len) = w.dims();
    let axis = if w.rows { "row" } else { "col" };
    let what = || format!("{} {view:?} {axis} of {}", n, w.md.show());
    macro_rules! vector {
        ($src:expr, $k:expr, $it:expr) => {
            drive($src, $it, len, inner, &|| format!("{axis} {}", $k), &mut |_, i, e| w.check($k, i, see(base, &*e)))
        };
    }
    macro_rules! nth {
        ($r:expr) => {
            match $r {
                Ok(it) => {
                    ensure!(n < count, "{}: Ok although there are only {count}", what());
                    vector!(src, n, it).map_err(|e| format!("{}: {e}", what()))
                }
                Err(e) => {
                    ensure!(n >= count, "{}: {e:?} although there are {count}", what());
                    ensure!(e == Error::IndexOutOfBounds, "{}: {e:?} instead of IndexOutOfBounds", what());
                    Ok(())
                }
            }
        };
    }
    match (view, w.rows) {
        (View::All, true) => drive(src, m.iter_rows(), count, outer, &what, &mut |s, k, it| vector!(s, k, it)),
        (View::All, false) => drive(src, m.iter_cols(), count, outer, &what, &mut |s, k, it| vector!(s, k, it)),
        (View::AllMut, true) => drive(src, m.iter_rows_mut(), count, outer, &what, &mut |s, k, it| vector!(s, k, it)),
        (View::AllMut, false) => drive(src, m.iter_cols_mut(), count, outer, &what, &mut |s, k, it| vector!(s, k, it)),
        (View::Nth, true) => nth!(m.iter_nth_row(n)),
        (View::Nth, false) => nth!(m.iter_nth_col(n)),
        (View::NthMut, true) => nth!(m.iter_nth_row_mut(n)),
        (View::NthMut, false) => nth!(m.iter_nth_col_mut(n)),
    }
}

/// n values around the number of vectors and values which wrap into range when multiplied by a stride
fn draw_n(src: &mut Src, md: &Model, count: usize) -> usize {
    match src.idx(8) {
        0 => count,
        1 => count.wrapping_add(1 + src.idx(3)),
        2 => *src.pick(&[usize::MAX, isize::MAX as usize, 1 << 63, 1 << 62, 1 << 32]),
        3 => md.nr.max(md.nc),
        4 => (usize::MAX / md.nr.max(md.nc).max(1)).wrapping_add(1 + src.idx(2)),
        5 => src.idx(md.nr.max(md.nc) + 2),
        _ => {
            if count == 0 {
                0
            } else {
                src.idx(count)
            }
        }
    }
}

fn script<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let md = draw_any_model::<E>(src, if cx.miri { 4 } else { 7 + 6 * cx.scale as usize }, 60, 1);
    let (mut m, md) = made!(cx, obtain_any::<E>(src, &md));
    let w = Want { md: md.clone(), rows: src.flip(), size: size_of::<E>() };
    let view = *src.pick(&VIEWS);
    let (count, _) = w.dims();
    let n = draw_n(src, &md, count);
    cx.note(|| format!("{view:?} of {} (rows: {}, n = {n})", md.show(), w.rows));
    cx.nontrivial = md.nr >= 2 && md.nc >= 2 || md.size() == 0 || n >= count;
    cx.label_if(md.size() == 0, "no elements");
    let sc = Script { steps: 8, finish: true, jump: 5 };
    scripted(src, &mut m, &w, view, n, sc, sc)?;
    let after = observe_mem(&m);
    ensure!(after.as_ref() == Some(&md), "looking at the matrix changed it");
    Ok(())
}

/// Everything, for every small shape: each view from the front, from the back and alternating.
fn grid<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let max = if cx.miri { 3 } else { [10, 16, 24][cx.scale.min(2) as usize] };
    let md = draw_model::<E>(src, max, 1);
    let (mut m, md) = made!(cx, obtain_any::<E>(src, &md));
    cx.note(|| format!("all views of {}", md.show()));
    cx.evals = 0;
    let mut key = 0;
    for rows in [true, false] {
        let w = Want { md: md.clone(), rows, size: size_of::<E>() };
        let (count, _) = w.dims();
        for view in VIEWS {
            let single = matches!(view, View::Nth | View::NthMut);
            let mut ns: Vec<usize> = if single { (0..count + 3).collect() } else { vec![0] };
            if single {
                ns.extend([md.nr, md.nc, md.nr + 1, md.nc + 1, usize::MAX, isize::MAX as usize, 1 << 63, md.nr * md.nc]);
            }
            for n in ns {
                // finishes: forward, backward, both kinds of collect
                for fin in [0, 1, 4, 5] {
                    let mut fixed = Src::replay(fixed_script(fin, count + 2));
                    let sc = Script { steps: 0, finish: true, jump: 0 };
                    scripted(&mut fixed, &mut m, &w, view, n, sc, sc)?;
                    cx.evals += 1;
                    key += 1;
                    if md.nr >= 2 && md.nc >= 2 || md.size() == 0 || n >= count {
                        cx.keys.push(key);
                    }
                }
            }
        }
    }
    Ok(())
}

/// choices for `drive`: one step (next or next_back), then finish `fin`, for each of `n` iterators
fn fixed_script(fin: u64, n: usize) -> Vec<u64> {
    // steps is 0 so upto() draws nothing; one step is always taken
    [if fin % 2 == 0 { 0 } else { 2 }, fin].repeat(2 * n + 2)
}

/// Zero-sized elements: shapes with up to usize::MAX elements.
fn huge<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = huge_shape(src);
    let order = draw_order(src);
    let mut m: Matrix<E> = huge_zst(nr, nc, order);
    let md = Model { order, nr, nc, d: vec![] };
    let w = Want { md, rows: src.flip(), size: 0 };
    let view = *src.pick(&VIEWS);
    let (count, _) = w.dims();
    let n = match src.idx(5) {
        0 => count - 1,
        1 => count,
        2 => count.saturating_add(1),
        3 => usize::MAX,
        _ => src.below(count as u64) as usize,
    };
    cx.note(|| format!("{view:?} of {nr}x{nc} {order:?} zero-sized (rows: {}, n = {n})", w.rows));
    cx.nontrivial = true;
    let sc = Script { steps: 4, finish: false, jump: 2 };
    guard(|| scripted(src, &mut m, &w, view, n, sc, sc)).map_err(|p| format!("{view:?} of {nr}x{nc} {order:?} (rows: {}, n = {n}) panics: {p}", w.rows))?
}

/// No elements, but a huge number of empty vectors.
fn hollow<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let k = *src.pick(&[1usize, 7, 1 << 32, isize::MAX as usize, usize::MAX]);
    let (nr, nc) = if src.flip() { (k, 0) } else { (0, k) };
    let md = Model::new(draw_order(src), nr, nc, vec![]);
    let (mut m, md) = made!(cx, obtain_any::<E>(src, &md));
    let w = Want { md: md.clone(), rows: src.flip(), size: size_of::<E>() };
    let view = *src.pick(&VIEWS);
    let (count, len) = w.dims();
    let n = match src.idx(6) {
        0 => count,
        1 => count.saturating_sub(1),
        2 => usize::MAX,
        3 => 0,
        4 => 1,
        _ => src.below(u64::MAX) as usize,
    };
    cx.note(|| format!("{view:?} of {} (rows: {}, n = {n})", md.show(), w.rows));
    cx.nontrivial = true;
    let outer = Script { steps: 4, finish: count < 100, jump: 2 };
    let inner = Script { steps: 2, finish: len < 100, jump: 2 };
    scripted(src, &mut m, &w, view, n, outer, inner)
}

fn main() {
    main_entry(&[
        Suite { name: "grid-u8", f: grid::<W8> },
        Suite { name: "grid-3xu64", f: grid::<W24> },
        Suite { name: "script-u8", f: script::<W8> },
        Suite { name: "script-tracked4", f: script::<Tr4> },
        Suite { name: "script-unit-align8", f: script::<Z8> },
        Suite { name: "script-wide", f: script::<Wide> },
        Suite { name: "huge-unit", f: huge::<Z> },
        Suite { name: "huge-unit-align8", f: huge::<Z8> },
        Suite { name: "hollow-u64", f: hollow::<W64> },
        Suite { name: "hollow-unit", f: hollow::<Z> },
    ])
}
