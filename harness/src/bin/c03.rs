//! C03: iter_rows_mut / iter_cols_mut under every interleaving of calls.
use mxv::*;
use matreex::{Matrix, Order};
use std::collections::VecDeque;

/// A row or column iterator together with the positions it still has to yield.
struct Inner<I> {
    it: I,
    todo: VecDeque<(usize, usize)>,
}

struct Where {
    base: usize,
    order: Order,
    nr: usize,
    nc: usize,
}

fn check_ref<E: Elem>(w: &Where, p: (usize, usize), e: &mut E, what: &str) -> R {
    // opaque to the optimiser, which takes the alignment of a reference for granted
    let a = std::hint::black_box(e as *mut E) as usize;
    ensure!(a % align_of::<E>() == 0 && a != 0, "{what}: misaligned reference");
    if !E::ZST {
        let want = w.base + flat(w.order, w.nr, w.nc, p.0, p.1) * size_of::<E>();
        ensure!(
            a == want,
            "{what}: the reference for ({},{}) is at byte offset {} instead of {}",
            p.0,
            p.1,
            a.wrapping_sub(w.base) as isize,
            want - w.base
        );
    }
    Ok(())
}

fn pop<T>(q: &mut VecDeque<T>, back: bool, k: usize) -> Option<T> {
    for _ in 0..k {
        if back { q.pop_back() } else { q.pop_front() };
    }
    if back { q.pop_back() } else { q.pop_front() }
}

fn len_is(n: usize, len: usize, hint: (usize, Option<usize>), what: &str) -> R {
    ensure!(len == n, "{what}: len() = {len} but {n} items are still to come");
    ensure!(hint.0 <= n && hint.1.is_none_or(|u| u >= n), "{what}: size_hint() = {hint:?} but {n} items are still to come");
    Ok(())
}

macro_rules! over {
    ($m:expr, $rows:expr, |$it:ident| $body:expr) => {
        if $rows {
            let $it = $m.iter_rows_mut();
            $body
        } else {
            let $it = $m.iter_cols_mut();
            $body
        }
    };
}

fn lines(nr: usize, nc: usize, rows: bool) -> VecDeque<VecDeque<(usize, usize)>> {
    if rows {
        (0..nr).map(|r| (0..nc).map(|c| (r, c)).collect()).collect()
    } else {
        (0..nc).map(|c| (0..nr).map(|r| (r, c)).collect()).collect()
    }
}

/// After all references have been collected: write through every one of them, then read the matrix.
fn finish<E: Elem>(refs: Vec<((usize, usize), &mut E)>, want_all: bool, md: &Model) -> Result<Model, String> {
    let mut want = md.clone();
    if want_all {
        ensure!(refs.len() == md.size(), "{} elements were handed out, the matrix has {}", refs.len(), md.size());
    }
    let mut seen = vec![false; md.size()];
    for (i, (p, e)) in refs.into_iter().enumerate() {
        let k = p.0 * md.nc + p.1;
        ensure!(!seen[k], "({},{}) was handed out twice", p.0, p.1);
        seen[k] = true;
        ensure!(e.val() == md.d[k], "the reference for ({},{}) shows {} instead of {}", p.0, p.1, e.val(), md.d[k]);
        let v = E::norm(200 + i as u64);
        e.set(v);
        want.d[k] = v;
    }
    Ok(want)
}

/// Random scripts over the outer iterator and any number of live inner ones.
fn script<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let max = if cx.miri { 4 } else { 6 + 6 * cx.scale as usize };
    let md = draw_any_model::<E>(src, max, 60, 10);
    let mut m: Matrix<E> = build(src, &md);
    let rows = src.flip();
    let w = Where { base: m.iter_elements().next().map_or(0, |e| e as *const E as usize), order: md.order, nr: md.nr, nc: md.nc };
    cx.note(|| format!("{} {}", md.show(), if rows { "iter_rows_mut" } else { "iter_cols_mut" }));
    let steps = src.upto(if cx.miri { 16 } else { 40 });
    let finish_all = !src.chance(1, 4);
    let mut both = (false, false);
    let mut most_alive = 0;
    let want = over!(m, rows, |outer| {
        let mut outer = outer;
        let mut todo = lines(md.nr, md.nc, rows);
        let mut inners: Vec<Inner<_>> = vec![];
        let mut refs: Vec<((usize, usize), &mut E)> = vec![];
        let mut all = true;
        for _ in 0..steps {
            len_is(todo.len(), outer.len(), outer.size_hint(), "outer iterator")?;
            let on_outer = inners.is_empty() || src.chance(1, 3);
            let act = src.idx(8);
            let k = if act >= 6 { src.idx(4) } else { 0 };
            if on_outer {
                let back = act % 2 == 1;
                let what = format!("outer {}({})", if back { "nth_back" } else { "nth" }, k);
                cx.note(|| what.clone());
                let got = match (act, back) {
                    (0..=5, false) => outer.next(),
                    (0..=5, true) => outer.next_back(),
                    (_, false) => outer.nth(k),
                    (_, true) => outer.nth_back(k),
                };
                all &= k == 0 || todo.is_empty();
                let want = pop(&mut todo, back, k);
                ensure!(got.is_some() == want.is_some(), "{what}: yields {} but {} was to come", got.is_some(), want.is_some());
                if let (Some(it), Some(todo)) = (got, want) {
                    inners.push(Inner { it, todo });
                    most_alive = most_alive.max(inners.len());
                }
            } else {
                let n = src.idx(inners.len());
                let i = &mut inners[n];
                len_is(i.todo.len(), i.it.len(), i.it.size_hint(), "inner iterator")?;
                let back = act % 2 == 1;
                let what = format!("inner#{n} {}({})", if back { "nth_back" } else { "nth" }, k);
                cx.note(|| what.clone());
                let got = match (act, back) {
                    (0..=5, false) => i.it.next(),
                    (0..=5, true) => i.it.next_back(),
                    (_, false) => i.it.nth(k),
                    (_, true) => i.it.nth_back(k),
                };
                if back { both.1 = true } else { both.0 = true }
                all &= k == 0 || i.todo.is_empty();
                let want = pop(&mut i.todo, back, k);
                ensure!(got.is_some() == want.is_some(), "{what}: yields {} but {} was to come", got.is_some(), want.is_some());
                if let (Some(e), Some(p)) = (got, want) {
                    check_ref(&w, p, e, &what)?;
                    refs.push((p, e));
                }
                len_is(i.todo.len(), i.it.len(), i.it.size_hint(), "inner iterator")?;
            }
        }
        len_is(todo.len(), outer.len(), outer.size_hint(), "outer iterator")?;
        if finish_all {
            // exhaust everything through the iterators' own adaptors
            let rev = src.flip();
            let rest: Vec<_> = if rev { outer.rev().take(todo.len() + 1).collect() } else { outer.take(todo.len() + 1).collect() };
            ensure!(rest.len() == todo.len(), "the outer iterator yields {} more items instead of {}", rest.len(), todo.len());
            if rev {
                todo = todo.into_iter().rev().collect();
            }
            for (it, todo) in rest.into_iter().zip(todo) {
                inners.push(Inner { it, todo });
            }
            for i in inners {
                let n = i.todo.len();
                let mut rev = src.flip();
                let (mut it, mut todo) = (i.it, i.todo);
                let zig = src.chance(1, 3);
                for _ in 0..n {
                    len_is(todo.len(), it.len(), it.size_hint(), "inner iterator")?;
                    let e = if rev { it.next_back() } else { it.next() };
                    let p = pop(&mut todo, rev, 0).unwrap();
                    let Some(e) = e else { return Err(format!("inner iterator ends although ({},{}) was to come", p.0, p.1)) };
                    check_ref(&w, p, e, "inner iterator")?;
                    refs.push((p, e));
                    rev ^= zig;
                }
                len_is(0, it.len(), it.size_hint(), "exhausted inner iterator")?;
                ensure!(it.next().is_none() && it.next_back().is_none(), "an exhausted inner iterator yields another element");
                ensure!(it.next_back().is_none() && it.next().is_none(), "an exhausted inner iterator yields another element");
            }
        } else {
            all = false;
            ensure!(outer.len() == todo.len(), "outer len changed");
        }
        finish(refs, all, &md)?
    });
    cx.nontrivial = (both.0 && both.1) || most_alive >= 2;
    cx.label_if(most_alive >= 3, "3 or more inner iterators alive");
    cx.label_if(md.size() == 0, "no elements");
    same(&m, &want)
}

/// Complete enumeration of front/back decisions: all of the outer iterator's, and all of one line's.
fn ends<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let max = if cx.miri { 3 } else { 4 + cx.scale as usize };
    let (nr, nc) = draw_shape(src, max);
    let order = draw_order(src);
    let rows = !src.flip();
    let md = Model::new(order, nr, nc, distinct::<E>(nr * nc, 10));
    let mut m: Matrix<E> = build_path(&md, 0);
    let w = Where { base: m.iter_elements().next().map_or(0, |e| e as *const E as usize), order, nr, nc };
    let mut todo = lines(nr, nc, rows);
    let n = todo.len();
    let special = if n > 0 { src.idx(n) } else { 0 };
    let want = over!(m, rows, |outer| {
        let mut outer = outer;
        let mut refs = vec![];
        let mut k = 0;
        while !todo.is_empty() {
            len_is(todo.len(), outer.len(), outer.size_hint(), "outer iterator")?;
            let back = src.flip();
            let Some(mut it) = (if back { outer.next_back() } else { outer.next() }) else {
                return Err(format!("the outer iterator ends with {} to come", todo.len()));
            };
            let mut line = pop(&mut todo, back, 0).unwrap();
            let mut alt = k % 2 == 1;
            while !line.is_empty() {
                len_is(line.len(), it.len(), it.size_hint(), "inner iterator")?;
                let back = if k == special { src.flip() } else { alt };
                alt = !alt;
                let p = pop(&mut line, back, 0).unwrap();
                let Some(e) = (if back { it.next_back() } else { it.next() }) else {
                    return Err(format!("inner iterator ends although ({},{}) was to come", p.0, p.1));
                };
                check_ref(&w, p, e, "inner iterator")?;
                refs.push((p, e));
            }
            len_is(0, it.len(), it.size_hint(), "exhausted inner iterator")?;
            ensure!(it.next().is_none() && it.next_back().is_none(), "an exhausted inner iterator yields another element");
            k += 1;
        }
        len_is(0, outer.len(), outer.size_hint(), "exhausted outer iterator")?;
        ensure!(outer.next().is_none() && outer.next_back().is_none(), "an exhausted outer iterator yields another item");
        finish(refs, true, &md)?
    });
    cx.nontrivial = nr * nc >= 2;
    cx.note(|| format!("{} {}", md.show(), if rows { "iter_rows_mut" } else { "iter_cols_mut" }));
    same(&m, &want)
}

/// usize::MAX elements are possible for zero-sized types: lengths must stay exact and nothing may overflow.
fn huge<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = huge_shape(src);
    let order = draw_order(src);
    let mut m: Matrix<E> = huge_zst(nr, nc, order);
    let rows = src.flip();
    cx.note(|| format!("{nr}x{nc} {order:?} of zero-sized elements, {}", if rows { "iter_rows_mut" } else { "iter_cols_mut" }));
    let (n, len) = if rows { (nr, nc) } else { (nc, nr) };
    over!(m, rows, |outer| {
        let mut outer = outer;
        let mut left = n;
        let mut inners = vec![];
        for _ in 0..src.upto(12) {
            len_is(left, outer.len(), outer.size_hint(), "outer iterator")?;
            let on_outer = inners.is_empty() || src.chance(1, 2);
            let back = src.flip();
            if on_outer {
                cx.note(|| format!("outer back={back}"));
                let got = if back { outer.next_back() } else { outer.next() };
                ensure!(got.is_some() == (left > 0), "outer iterator yields {} with {left} to come", got.is_some());
                left = left.saturating_sub(1);
                if let Some(it) = got {
                    inners.push((it, len));
                }
            } else {
                let i = src.idx(inners.len());
                cx.note(|| format!("inner#{i} back={back}"));
                let (it, left) = &mut inners[i];
                len_is(*left, it.len(), it.size_hint(), "inner iterator")?;
                let got = if back { it.next_back() } else { it.next() };
                ensure!(got.is_some() == (*left > 0), "inner iterator yields {} with {left} to come", got.is_some());
                if let Some(e) = got {
                    ensure!(std::hint::black_box(e as *mut E) as usize % align_of::<E>() == 0, "misaligned reference");
                }
                *left = left.saturating_sub(1);
                len_is(*left, it.len(), it.size_hint(), "inner iterator")?;
            }
        }
        len_is(left, outer.len(), outer.size_hint(), "outer iterator")?;
    });
    cx.nontrivial = nr > 1 || nc > 1;
    Ok(())
}

/// Extents up to usize::MAX for a matrix without elements.
fn hollow<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let n = *src.pick(&[1usize, 2, 5, 1 << 31, (1 << 32) + 1, isize::MAX as usize, usize::MAX - 1, usize::MAX]);
    let tall = src.flip();
    let (nr, nc) = if tall { (n, 0) } else { (0, n) };
    let mut m: Matrix<E> = Matrix::with_default((nr, nc)).map_err(|e| format!("with_default(({nr},{nc})): {e}"))?;
    if src.flip() {
        m.set_order(other(m.order()));
    }
    let rows = src.flip();
    cx.note(|| format!("{nr}x{nc} {:?}, rows {rows}", m.order()));
    let mut left = if rows { nr } else { nc };
    over!(m, rows, |outer| {
        let mut outer = outer;
        for _ in 0..6 {
            len_is(left, outer.len(), outer.size_hint(), "outer iterator")?;
            let back = src.flip();
            let got = if back { outer.next_back() } else { outer.next() };
            ensure!(got.is_some() == (left > 0), "outer iterator over an empty {nr}x{nc} matrix yields {} with {left} to come", got.is_some());
            left = left.saturating_sub(1);
            if let Some(mut it) = got {
                len_is(0, it.len(), it.size_hint(), "inner iterator")?;
                ensure!(it.next().is_none() && it.next_back().is_none(), "an element out of an empty matrix");
            }
        }
    });
    cx.nontrivial = true;
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "script-u8", f: script::<W8> },
        Suite { name: "script-tracked4", f: script::<Tr4> },
        Suite { name: "script-3xu64", f: script::<W24> },
        Suite { name: "script-wide", f: script::<Wide> },
        Suite { name: "script-unit", f: script::<Z> },
        Suite { name: "script-unit-align8", f: script::<Z8> },
        Suite { name: "ends-u8", f: ends::<W8> },
        Suite { name: "ends-3xu64", f: ends::<W24> },
        Suite { name: "ends-unit-align8", f: ends::<Z8> },
        Suite { name: "huge-unit", f: huge::<Z> },
        Suite { name: "huge-unit-align8", f: huge::<Z8> },
        Suite { name: "hollow-u16", f: hollow::<W16> },
        Suite { name: "hollow-unit-align8", f: hollow::<Z8> },
    ])
}
