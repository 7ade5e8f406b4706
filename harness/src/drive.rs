//! Scripts over exact-size double-ended iterators, judged by a range of positions.
use crate::engine::{R, Src};
use crate::ensure;

/// How a script may go.
#[derive(Clone, Copy)]
pub struct Script {
    /// steps before the finish
    pub steps: usize,
    /// the rest may be consumed (false: it is too long)
    pub finish: bool,
    /// largest argument of nth/nth_back
    pub jump: usize,
}

/// Runs a drawn script on `it`, which must stand for positions `0..n`; `item` judges each item.
pub fn drive<I>(
    src: &mut Src,
    mut it: I,
    n: usize,
    sc: Script,
    what: &dyn Fn() -> String,
    item: &mut dyn FnMut(&mut Src, usize, I::Item) -> R,
) -> R
where
    I: ExactSizeIterator + DoubleEndedIterator,
{
    let (mut lo, mut hi) = (0usize, n);
    macro_rules! got {
        ($got:expr, $want:expr, $call:literal) => {{
            let want: Option<usize> = $want;
            match ($got, want) {
                (Some(x), Some(k)) => item(src, k, x).map_err(|e| format!("{}: {} with {} left: {e}", what(), $call, hi - lo))?,
                (None, None) => {}
                (Some(_), None) => return Err(format!("{}: {} yields an item although none should be left", what(), $call)),
                (None, Some(k)) => return Err(format!("{}: {} yields nothing instead of item {k} of {n}", what(), $call)),
            }
        }};
    }
    let steps = src.upto(sc.steps);
    for _ in 0..=steps {
        let left = hi - lo;
        ensure!(it.len() == left, "{}: len() is {} with {left} items to come", what(), it.len());
        ensure!(it.size_hint() == (left, Some(left)), "{}: size_hint() is {:?} with {left} items to come", what(), it.size_hint());
        match src.idx(6) {
            0 | 1 => {
                let want = (lo < hi).then_some(lo);
                lo += want.is_some() as usize;
                got!(it.next(), want, "next()");
            }
            2 | 3 => {
                let want = (lo < hi).then(|| hi - 1);
                hi -= want.is_some() as usize;
                got!(it.next_back(), want, "next_back()");
            }
            4 => {
                let j = src.upto(sc.jump);
                let want = (j < left).then(|| lo + j);
                lo = want.map_or(hi, |k| k + 1);
                if !sc.finish && want.is_none() {
                    return Ok(());
                }
                got!(it.nth(j), want, "nth()");
            }
            _ => {
                let j = src.upto(sc.jump);
                let want = (j < left).then(|| hi - 1 - j);
                hi = want.unwrap_or(lo);
                got!(it.nth_back(j), want, "nth_back()");
            }
        }
    }
    if !sc.finish {
        return Ok(());
    }
    let kind = src.idx(8);
    match kind {
        0 => {
            while lo < hi {
                lo += 1;
                got!(it.next(), Some(lo - 1), "next()");
            }
        }
        1 => {
            while lo < hi {
                hi -= 1;
                got!(it.next_back(), Some(hi), "next_back()");
            }
        }
        2 => {
            let mut k = lo;
            let r = it.try_fold((), |(), x| {
                if k >= hi {
                    return Err("too many items".to_string());
                }
                k += 1;
                item(src, k - 1, x)
            });
            r.map_err(|e| format!("{}: try_fold: {e}", what()))?;
            ensure!(k == hi, "{}: try_fold saw {} of {} items", what(), k - lo, hi - lo);
            return Ok(());
        }
        3 => {
            let mut k = hi;
            let r = it.try_rfold((), |(), x| {
                if k <= lo {
                    return Err("too many items".to_string());
                }
                k -= 1;
                item(src, k, x)
            });
            r.map_err(|e| format!("{}: try_rfold: {e}", what()))?;
            ensure!(k == lo, "{}: try_rfold saw {} of {} items", what(), hi - k, hi - lo);
            return Ok(());
        }
        4 | 5 => {
            let v: Vec<I::Item> = if kind == 4 { it.collect() } else { it.rev().collect() };
            ensure!(v.len() == hi - lo, "{}: collect() gives {} of {} items", what(), v.len(), hi - lo);
            for (k, x) in v.into_iter().enumerate() {
                let p = if kind == 4 { lo + k } else { hi - 1 - k };
                item(src, p, x).map_err(|e| format!("{}: collect(): {e}", what()))?;
            }
            return Ok(());
        }
        6 => {
            let c = it.count();
            ensure!(c == hi - lo, "{}: count() is {c} with {} items to come", what(), hi - lo);
            return Ok(());
        }
        _ => {
            let want = (lo < hi).then(|| hi - 1);
            got!(it.last(), want, "last()");
            return Ok(());
        }
    }
    ensure!(it.len() == 0, "{}: len() is {} at the end", what(), it.len());
    ensure!(it.next().is_none(), "{}: next() yields an item after the end", what());
    ensure!(it.next_back().is_none(), "{}: next_back() yields an item after the end", what());
    Ok(())
}
