//! C15: element iteration follows the storage order, reported indices are right, consuming variants move out exactly once.
use matreex::parallel::*;
use matreex::{Index, Matrix, Order};
use mxv::drive::{Script, drive};
use mxv::engine::guard;
use mxv::ops::history;
use mxv::*;
use std::collections::HashMap;
use std::sync::Mutex;

fn script(cx: &Cx) -> Script {
    Script { steps: if cx.miri { 5 } else { 14 }, finish: true, jump: 4 }
}

/// Address by memory position, through get; None if the matrix cannot be looked at that way.
fn addresses<E: Elem>(m: &Matrix<E>) -> Option<(Model, Vec<usize>, Vec<u32>)> {
    let (nr, nc, order) = (m.nrows(), m.ncols(), m.order());
    let size = nr.checked_mul(nc)?;
    if size != m.size() {
        return None;
    }
    let (mut mem, mut at, mut id) = (vec![], vec![], vec![]);
    for k in 0..size {
        let e = m.get(pos(order, nr, nc, k)).ok()?;
        at.push(e as *const E as usize);
        mem.push(e.val());
        id.push(e.id());
    }
    Some((Model::from_mem(order, nr, nc, &mem), at, id))
}

fn ix(md: &Model, k: usize) -> Index {
    let (r, c) = pos(md.order, md.nr, md.nc, k);
    Index::new(r, c)
}

/// One variant of one matrix.
fn variant<E: Elem>(src: &mut Src, cx: &mut Cx, mut m: Matrix<E>, sc: Script) -> R {
    let (md, at, id) = made!(cx, guard(|| addresses(&m)).ok().flatten());
    let (n, mem) = (md.size(), md.mem());
    let alive = ledger::live();
    let name = [
        "iter_elements",
        "iter_elements_mut",
        "into_iter_elements",
        "iter_elements_with_index",
        "iter_elements_mut_with_index",
        "into_iter_elements_with_index",
        "par_iter_elements",
        "par_iter_elements_mut",
        "into_par_iter_elements",
        "par_iter_elements_with_index",
        "par_iter_elements_mut_with_index",
        "into_par_iter_elements_with_index",
    ];
    let v = src.idx(12);
    let what = || format!("{} of {}", name[v], md.show());
    cx.note(what);
    cx.label(name[v]);
    cx.nontrivial = md.nr >= 2 && md.nc >= 2;
    let place = |k: usize, a: usize, val: u64| -> R {
        ensure!(E::ZST || a == at[k], "item {k} is not the element at {:?} in memory order", pos(md.order, md.nr, md.nc, k));
        ensure!(val == mem[k], "item {k} is {val} instead of {}", mem[k]);
        Ok(())
    };
    let index = |k: usize, i: Index| -> R {
        ensure!(i == ix(&md, k), "item {k} is reported at {i:?} instead of {:?}", ix(&md, k));
        Ok(())
    };
    let addr = |e: &E| e as *const E as usize;
    // elements moved out by a consuming variant
    let mut out: Vec<Option<E>> = (0..n).map(|_| None).collect();
    let mut write = vec![None; n];
    match v {
        0 => drive(src, m.iter_elements(), n, sc, &what, &mut |_, k, e| place(k, addr(e), e.val()))?,
        1 => drive(src, m.iter_elements_mut(), n, sc, &what, &mut |_, k, e| {
            place(k, addr(e), e.val())?;
            e.set(E::norm(5000 + k as u64));
            write[k] = Some(E::norm(5000 + k as u64));
            Ok(())
        })?,
        2 => {
            drive(src, m.into_iter_elements(), n, sc, &what, &mut |_, k, e| {
                place(k, at[k], e.val())?;
                ensure!(e.id() == id[k], "item {k} is another element than the one stored there");
                out[k] = Some(e);
                Ok(())
            })?;
            return moved(out, alive, n).map_err(|e| format!("{}: {e}", what()));
        }
        3 => drive(src, m.iter_elements_with_index(), n, sc, &what, &mut |_, k, (i, e)| {
            index(k, i)?;
            place(k, addr(e), e.val())
        })?,
        4 => drive(src, m.iter_elements_mut_with_index(), n, sc, &what, &mut |_, k, (i, e)| {
            index(k, i)?;
            place(k, addr(e), e.val())?;
            e.set(E::norm(5000 + k as u64));
            write[k] = Some(E::norm(5000 + k as u64));
            Ok(())
        })?,
        5 => {
            drive(src, m.into_iter_elements_with_index(), n, sc, &what, &mut |_, k, (i, e)| {
                index(k, i)?;
                place(k, at[k], e.val())?;
                ensure!(e.id() == id[k], "item {k} is another element than the one stored there");
                out[k] = Some(e);
                Ok(())
            })?;
            return moved(out, alive, n).map_err(|e| format!("{}: {e}", what()));
        }
        _ => {
            // the parallel variants: any sequence, each item once; possibly stopped early
            let stop = if src.flip() { None } else { Some(src.upto(n)) };
            let seen: Mutex<Vec<(Option<Index>, usize, u64, u32, Option<E>)>> = Mutex::new(vec![]);
            let see = |i: Option<Index>, a: usize, val: u64, id: u32, own: Option<E>| {
                let mut s = seen.lock().unwrap();
                s.push((i, a, val, id, own));
                match stop {
                    Some(k) if s.len() > k => None,
                    _ => Some(()),
                }
            };
            let r = guard(|| match v {
                6 => drop(m.par_iter_elements().map(|e| see(None, addr(e), e.val(), e.id(), None)).while_some().count()),
                7 => drop(m.par_iter_elements_mut().map(|e| see(None, addr(e), e.val(), e.id(), None)).while_some().count()),
                8 => drop(
                    std::mem::replace(&mut m, Matrix::new())
                        .into_par_iter_elements()
                        .map(|e| see(None, 0, e.val(), e.id(), Some(e)))
                        .while_some()
                        .count(),
                ),
                9 => drop(
                    m.par_iter_elements_with_index().map(|(i, e)| see(Some(i), addr(e), e.val(), e.id(), None)).while_some().count(),
                ),
                10 => drop(
                    m.par_iter_elements_mut_with_index()
                        .map(|(i, e)| see(Some(i), addr(e), e.val(), e.id(), None))
                        .while_some()
                        .count(),
                ),
                _ => drop(
                    std::mem::replace(&mut m, Matrix::new())
                        .into_par_iter_elements_with_index()
                        .map(|(i, e)| see(Some(i), 0, e.val(), e.id(), Some(e)))
                        .while_some()
                        .count(),
                ),
            });
            r.map_err(|e| format!("{}: panic: {e}", what()))?;
            let seen = seen.into_inner().unwrap();
            ensure!(stop.is_some() || seen.len() == n, "{}: {} items instead of {n}", what(), seen.len());
            let mut used = vec![false; n];
            let owned = v == 8 || v == 11;
            // unindexed items are told apart by address, or (moved out) by value and identity
            let mut places: HashMap<(usize, u32), Vec<usize>> = HashMap::new();
            if v == 6 || v == 7 || v == 8 {
                for k in (0..n).rev() {
                    let key = if E::ZST { (0, 0) } else if owned { (mem[k] as usize, id[k]) } else { (at[k], 0) };
                    places.entry(key).or_default().push(k);
                }
            }
            for (i, a, val, eid, own) in seen {
                // the position this item claims to be, or (unindexed) is found to be
                let k = match i {
                    Some(i) => {
                        ensure!(i.row < md.nr && i.col < md.nc, "{}: an element is reported at {i:?}", what());
                        flat(md.order, md.nr, md.nc, i.row, i.col)
                    }
                    None => {
                        let key = if E::ZST { (0, 0) } else if owned { (val as usize, eid) } else { (a, 0) };
                        let k = places.get_mut(&key).and_then(|v| v.pop());
                        match k {
                            Some(k) => k,
                            None => return Err(format!("{}: an item ({val}) that is none of the elements, or one for the second time", what())),
                        }
                    }
                };
                ensure!(!used[k], "{}: the element at {:?} comes twice", what(), ix(&md, k));
                used[k] = true;
                if owned {
                    ensure!(eid == id[k] && val == mem[k], "{}: the item for {:?} is another element", what(), ix(&md, k));
                    out[k] = own;
                } else {
                    ensure!(E::ZST || a == at[k], "{}: the item for {:?} is not the element that get returns", what(), ix(&md, k));
                }
            }
            if owned {
                return moved(out, alive, n).map_err(|e| format!("{}: {e}", what()));
            }
        }
    }
    // borrowing variants: the matrix is as before, except for what was written through the items
    let Some((md1, at1, id1)) = guard(|| addresses(&m)).map_err(|e| format!("{}: afterwards: {e}", what()))? else {
        return Err(format!("{}: the matrix cannot be read any more", what()));
    };
    ensure!((&at1, &id1) == (&at, &id), "{}: elements moved or changed", what());
    let want: Vec<u64> = mem.iter().zip(&write).map(|(&v, w)| w.unwrap_or(v)).collect();
    ensure!(md1.mem() == want, "{}: contents afterwards are {:?} instead of {want:?}", what(), md1.mem());
    ledger::check().map_err(|e| format!("{}: {e}", what()))
}

/// After a consuming variant: what was moved out is alive, everything else is gone.
fn moved<E: Elem>(out: Vec<Option<E>>, alive: i64, n: usize) -> R {
    let held = out.iter().flatten().count() as i64;
    if E::TRACKED {
        let rest = alive - n as i64;
        let now = ledger::live() - rest;
        ensure!(now == held, "{held} elements were moved out, but {now} of the {n} are alive");
    }
    for e in out.iter().flatten() {
        e.val();
    }
    ledger::check()?;
    drop(out);
    ledger::check()
}

fn after_history<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (mut pool, _) = made!(cx, history::<E>(src, 6 + 2 * cx.scale as usize, if cx.miri { 3 } else { 8 }, 60));
    let m = pool.remove(src.idx(3));
    drop(pool);
    let sc = script(cx);
    variant(src, cx, m, sc)
}

/// Every variant on every small shape, both orders, with short scripts.
fn all<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let ext = if cx.miri { 4 } else { [6, 9, 12][cx.scale.min(2) as usize] };
    let md = draw_model::<E>(src, ext, 1);
    let (m, _) = made!(cx, obtain_any::<E>(src, &md));
    let sc = Script { steps: if src.is_exhaustive() { 0 } else { 8 }, finish: true, jump: 3 };
    variant(src, cx, m, sc)
}

/// Larger matrices, whose positions do not fit into u8 or u16 and which rayon splits.
fn large<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let top = [300, 900][cx.scale.min(1) as usize];
    let a = src.range(1, top);
    let b = src.range(1, (60_000 / a).clamp(1, top));
    let (nr, nc) = if src.chance(1, 60) { draw_giant(src) } else if src.chance(1, 4) { draw_large(src) } else if src.flip() { (a, b) } else { (b, a) };
    let md = Model::new(draw_order(src), nr, nc, distinct::<E>(nr * nc, 1));
    let (m, md) = made!(cx, obtain::<E>(&md, 0));
    let n = md.size();
    let mem = md.mem();
    cx.nontrivial = true;
    let v = src.idx(6);
    let what = || format!("variant {v} of {}", md.show());
    cx.note(what);
    let par = |i: Index, val: u64| i == Index::new(i.row, i.col) && i.row < md.nr && i.col < md.nc && val == md.at(i.row, i.col);
    let sc = Script { steps: 12, finish: false, jump: n / 3 };
    let good = |k: usize, i: Option<Index>, val: u64| -> R {
        ensure!(i.is_none_or(|i| i == ix(&md, k)), "item {k} is reported at {i:?} instead of {:?}", ix(&md, k));
        ensure!(val == mem[k], "item {k} is {val} instead of {}", mem[k]);
        Ok(())
    };
    match v {
        0 => drive(src, m.iter_elements(), n, sc, &what, &mut |_, k, e| good(k, None, e.val())),
        1 => drive(src, m.iter_elements_with_index(), n, sc, &what, &mut |_, k, (i, e)| good(k, Some(i), e.val())),
        2 => drive(src, m.into_iter_elements_with_index(), n, sc, &what, &mut |_, k, (i, e)| good(k, Some(i), e.val())),
        3 => {
            for (k, (i, e)) in m.iter_elements_with_index().enumerate() {
                good(k, Some(i), e.val()).map_err(|e| format!("{}: {e}", what()))?;
            }
            for (k, (i, e)) in m.into_iter_elements_with_index().rev().enumerate() {
                good(n - 1 - k, Some(i), e.val()).map_err(|e| format!("{}: reversed: {e}", what()))?;
            }
            Ok(())
        }
        4 => {
            let bad = m.par_iter_elements_with_index().filter(|(i, e)| !par(*i, e.val())).count();
            ensure!(bad == 0, "{}: {bad} elements are reported with a wrong index", what());
            let all: usize = m.par_iter_elements_with_index().count();
            ensure!(all == n, "{}: {all} items instead of {n}", what());
            Ok(())
        }
        _ => {
            let mut v: Vec<(Index, E)> = m.into_par_iter_elements_with_index().collect();
            v.sort_by_key(|(i, _)| (i.row, i.col));
            ensure!(v.len() == n, "{}: {} items instead of {n}", what(), v.len());
            for (k, (i, e)) in v.iter().enumerate() {
                ensure!(*i == Index::new(k / md.nc, k % md.nc), "{}: no item for ({}, {})", what(), k / md.nc, k % md.nc);
                ensure!(e.val() == md.d[k], "{}: the item for {i:?} is {} instead of {}", what(), e.val(), md.d[k]);
            }
            Ok(())
        }
    }
}

/// Zero-sized elements, up to usize::MAX of them: both ends, in part.
fn huge<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let ((nr, nc), order) = (huge_shape(src), draw_order(src));
    let mut m = huge_zst::<E>(nr, nc, order);
    let n = nr * nc;
    let v = src.idx(6);
    let what = || format!("variant {v} of {nr}x{nc} {order:?} of zero-sized elements");
    cx.note(what);
    cx.nontrivial = true;
    let sc = Script { steps: 10, finish: false, jump: 3 };
    let good = |k: usize, i: Index| -> R {
        let (r, c) = match order {
            Order::RowMajor => (k / nc, k % nc),
            Order::ColMajor => (k % nr, k / nr),
        };
        ensure!(i == Index::new(r, c), "item {k} is reported at {i:?} instead of ({r}, {c})");
        Ok(())
    };
    match v {
        0 => drive(src, m.iter_elements(), n, sc, &what, &mut |_, _, _| Ok(())),
        1 => drive(src, m.iter_elements_mut(), n, sc, &what, &mut |_, _, _| Ok(())),
        2 => drive(src, m.into_iter_elements(), n, sc, &what, &mut |_, _, _| Ok(())),
        3 => drive(src, m.iter_elements_with_index(), n, sc, &what, &mut |_, k, (i, _)| good(k, i)),
        4 => drive(src, m.iter_elements_mut_with_index(), n, sc, &what, &mut |_, k, (i, _)| good(k, i)),
        _ => drive(src, m.into_iter_elements_with_index(), n, sc, &what, &mut |_, k, (i, _)| good(k, i)),
    }
}

/// No elements, but a huge other extent.
fn hollow<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let n = *src.pick(&[1usize, 7, 1 << 32, isize::MAX as usize, usize::MAX]);
    let (nr, nc) = if src.flip() { (n, 0) } else { (0, n) };
    let md = Model::new(draw_order(src), nr, nc, vec![]);
    let (m, _) = made!(cx, obtain::<E>(&md, 0));
    let sc = script(cx);
    variant(src, cx, m, sc)?;
    cx.nontrivial = true;
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "all-tracked8", f: all::<Tr8> },
        Suite { name: "all-u8", f: all::<W8> },
        Suite { name: "all-3xu64", f: all::<W24> },
        Suite { name: "history-tracked4", f: after_history::<Tr4> },
        Suite { name: "history-tracked24", f: after_history::<Tr24> },
        Suite { name: "history-string", f: after_history::<St> },
        Suite { name: "history-u16", f: after_history::<W16> },
        Suite { name: "history-tracked-zst", f: after_history::<TrZ1> },
        Suite { name: "history-wide", f: after_history::<Wide> },
        Suite { name: "large-u64", f: large::<W64> },
        Suite { name: "large-u16", f: large::<W16> },
        Suite { name: "huge-unit", f: huge::<Z> },
        Suite { name: "huge-unit-align8", f: huge::<Z8> },
        Suite { name: "hollow-tracked8", f: hollow::<Tr8> },
        Suite { name: "hollow-unit", f: hollow::<Z> },
    ])
}
