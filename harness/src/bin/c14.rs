//! C14: overwrite copies exactly the overlapping top-left block.
use matreex::{Matrix, Order};
use mxv::engine::guard;
use mxv::ops::history;
use mxv::*;

/// Element of either matrix; some are Copy (slice cloning is specialised for them), most are not.
trait V: Clone {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn norm(v: u64) -> u64;
    fn id(&self) -> u32 {
        0
    }
}
macro_rules! copies {
    ($($t:ty, |$v:ident| $mk:expr, |$s:ident| $val:expr, |$w:ident| $norm:expr;)*) => {$(
        impl V for $t {
            #[allow(unused_variables)]
            fn mk($v: u64) -> Self { $mk }
            #[allow(unused_variables)]
            fn val(&self) -> u64 { let $s = self; $val }
            #[allow(unused_variables)]
            fn norm($w: u64) -> u64 { $norm }
        }
    )*};
}
copies! {
    u8, |v| v as u8, |s| *s as u64, |w| w & 0xff;
    u64, |v| v, |s| *s, |w| w;
    [u64; 3], |v| [v, v ^ 9, !v], |s| if s[1] == s[0] ^ 9 && s[2] == !s[0] { s[0] } else { 0xBAD_BAD }, |w| w;
    (), |v| (), |s| 0, |w| 0;
}
macro_rules! elems {
    ($($t:ty)*) => {$(
        impl V for $t {
            fn mk(v: u64) -> Self { <$t as Elem>::mk(v) }
            fn val(&self) -> u64 { Elem::val(self) }
            fn norm(v: u64) -> u64 { <$t as Elem>::norm(v) }
            fn id(&self) -> u32 { Elem::id(self) }
        }
    )*};
}
elems!(Tr4 Tr8 Tr24 TrWide TrZ8 W16 Wide St Bx Gen);

/// A type with a clone_from of its own, which keeps its allocation.
struct Keep(Box<u64>);
impl Clone for Keep {
    fn clone(&self) -> Self {
        Keep(self.0.clone())
    }
    fn clone_from(&mut self, o: &Self) {
        *self.0 = *o.0;
    }
}
impl V for Keep {
    fn mk(v: u64) -> Self {
        Keep(Box::new(v))
    }
    fn val(&self) -> u64 {
        *self.0
    }
    fn norm(v: u64) -> u64 {
        v
    }
}

fn make<T: V>(md: &Model, path: usize) -> Option<Matrix<T>> {
    guard(|| {
        let mem = md.mem();
        let (a, b) = if md.order == Order::RowMajor { (md.nr, md.nc) } else { (md.nc, md.nr) };
        let mut v: Vec<T> = Vec::with_capacity(mem.len() + path * 3);
        v.extend(mem.iter().map(|&x| T::mk(x)));
        let mut m = Matrix::from_row(v);
        m.reshape((a, b)).ok()?;
        match (md.order, path) {
            (Order::ColMajor, _) => {
                m.switch_order_without_rearrangement();
            }
            (_, 2) => {
                m.switch_order().switch_order();
            }
            (_, 3) => {
                m.transpose().transpose();
            }
            _ => {}
        }
        (see(&m)?.0 == *md).then_some(m)
    })
    .ok()?
}

/// Contents and, position by position, the identities.
fn see<T: V>(m: &Matrix<T>) -> Option<(Model, Vec<u32>)> {
    let mem: Vec<u64> = m.iter_elements().map(|e| e.val()).collect();
    if m.nrows().checked_mul(m.ncols()) != Some(mem.len()) {
        return None;
    }
    let md = Model::from_mem(m.order(), m.nrows(), m.ncols(), &mem);
    let mut ids = vec![];
    for k in 0..mem.len() {
        let e = m.get((k / md.nc, k % md.nc)).ok()?;
        if e.val() != md.d[k] {
            return None;
        }
        ids.push(e.id());
    }
    Some((md, ids))
}

fn judge<T: V>(dest: &mut Matrix<T>, source: &Matrix<T>, cx: &mut Cx) -> R {
    let (d0, dids) = made!(cx, guard(|| see(dest)).ok().flatten());
    let (s0, sids) = made!(cx, guard(|| see(source)).ok().flatten());
    if ledger::check().is_err() {
        cx.label("no matrix");
        return Ok(());
    }
    let what = || format!("{} overwritten with {}", d0.show(), s0.show());
    cx.note(what);
    let (nr, nc) = (d0.nr.min(s0.nr), d0.nc.min(s0.nc));
    cx.nontrivial = nr * nc > 0 && ((d0.nr, d0.nc) != (s0.nr, s0.nc) || d0.order != s0.order);
    cx.label(match (nr * nc == 0, d0.order == s0.order) {
        (true, _) => "no overlap",
        (_, true) => "same order",
        _ => "cross order",
    });
    guard(|| {
        dest.overwrite(source);
    })
    .map_err(|e| format!("{}: panic: {e}", what()))?;
    let after = guard(|| see(source)).map_err(|e| format!("{}: reading the source: {e}", what()))?;
    ensure!(after == Some((s0.clone(), sids.clone())), "{}: the source is changed", what());
    let Some((d1, ids)) = guard(|| see(dest)).map_err(|e| format!("{}: reading the destination: {e}", what()))? else {
        return Err(format!("{}: the destination is incoherent", what()));
    };
    ensure!(
        (d1.nr, d1.nc, d1.order) == (d0.nr, d0.nc, d0.order),
        "{}: the destination becomes {}x{} {:?}",
        what(),
        d1.nr,
        d1.nc,
        d1.order
    );
    let own: std::collections::HashSet<u32> = sids.into_iter().collect();
    for r in 0..if d0.d.is_empty() { 0 } else { d0.nr } {
        for c in 0..d0.nc {
            let k = r * d0.nc + c;
            if r < nr && c < nc {
                ensure!(
                    d1.at(r, c) == s0.at(r, c),
                    "{}: ({r}, {c}) is {} instead of the source's {}",
                    what(),
                    d1.at(r, c),
                    s0.at(r, c)
                );
                ensure!(ids[k] == 0 || !own.contains(&ids[k]), "{}: the element at ({r}, {c}) is the source's own, not a clone", what());
            } else {
                ensure!(
                    d1.at(r, c) == d0.at(r, c) && ids[k] == dids[k],
                    "{}: ({r}, {c}) is outside of the overlap but becomes {} (#{}) from {} (#{})",
                    what(),
                    d1.at(r, c),
                    ids[k],
                    d0.at(r, c),
                    dids[k]
                );
            }
        }
    }
    ledger::check().map_err(|e| format!("{}: {e}", what()))
}

/// All pairs of shapes and orders.
fn pairs<T: V>(src: &mut Src, cx: &mut Cx) -> R {
    let ext = if cx.miri { 4 } else { [5, 7, 8][cx.scale.min(2) as usize] };
    let one = |src: &mut Src, start: u64| {
        let (nr, nc) = draw_any_shape(src, ext, 80);
        let order = draw_order(src);
        let path = if src.is_exhaustive() { 0 } else { src.idx(4) };
        let md = Model::new(order, nr, nc, (0..(nr * nc) as u64).map(|i| T::norm(start + i)).collect());
        make::<T>(&md, path)
    };
    let mut d = made!(cx, one(src, 1));
    let s = made!(cx, one(src, 101));
    judge(&mut d, &s, cx)?;
    // nothing is lost or dropped twice afterwards either
    drop(d);
    drop(s);
    ledger::check()
}

/// After random histories, several overwrites in a row.
fn chain<E: Elem + V>(src: &mut Src, cx: &mut Cx) -> R {
    let (mut pool, _) = made!(cx, history::<E>(src, 6, if cx.miri { 3 } else { 8 }, 60));
    let n = 1 + src.idx(3);
    cx.evals = n as u64;
    for _ in 0..n {
        let d = src.idx(3);
        let mut dest = pool.remove(d);
        let s = src.idx(2);
        judge(&mut dest, &pool[s], cx)?;
        if src.flip() {
            dest.transpose();
        }
        if src.flip() {
            dest.switch_order_without_rearrangement();
        }
        pool.push(dest);
    }
    drop(pool);
    ledger::check()
}

/// Larger pairs, mostly with long and short extents mixed.
fn large<T: V>(src: &mut Src, cx: &mut Cx) -> R {
    let top = [130, 400][cx.scale.min(1) as usize];
    let one = |src: &mut Src, start: u64| {
        let mut ext = || match src.idx(5) {
            0 => src.range(1, 4),
            1 => *src.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
            _ => src.hinted(1, top, &near(top as u64)),
        };
        let (nr, nc) = (ext(), ext());
        let order = draw_order(src);
        let md = Model::new(order, nr, nc, (0..(nr * nc) as u64).map(|i| T::norm(start + i)).collect());
        make::<T>(&md, src.idx(2))
    };
    let mut d = made!(cx, one(src, 1));
    let s = made!(cx, one(src, 1_000_001));
    judge(&mut d, &s, cx)
}

/// Empty matrices with a huge other extent (the overlap is small in both dimensions).
fn hollow<T: V>(src: &mut Src, cx: &mut Cx) -> R {
    let n = *src.pick(&[9usize, 1 << 32, isize::MAX as usize, usize::MAX]);
    let (a, b) = if src.flip() { (n, 0) } else { (0, n) };
    let e = made!(cx, make::<T>(&Model::new(draw_order(src), a, b, vec![]), 0));
    let (nr, nc) = draw_shape(src, 4);
    let order = draw_order(src);
    let m = made!(cx, make::<T>(&Model::new(order, nr, nc, (0..(nr * nc) as u64).map(|i| T::norm(i + 1)).collect()), src.idx(4)));
    let (mut d, s) = if src.flip() { (e, m) } else { (m, e) };
    judge(&mut d, &s, cx)?;
    cx.nontrivial = true;
    Ok(())
}

/// Zero-sized elements: nothing to compare but shapes; it must end without a panic.
fn huge<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let ((a, b), o1) = (huge_shape(src), draw_order(src));
    let (nr, nc) = draw_shape(src, 4);
    let o2 = draw_order(src);
    let x = huge_zst::<E>(a, b, o1);
    let y = huge_zst::<E>(nr, nc, o2);
    let (mut d, s) = if src.flip() { (x, y) } else { (y, x) };
    let what = format!("{}x{} {:?} overwritten with {}x{} {:?}", d.nrows(), d.ncols(), d.order(), s.nrows(), s.ncols(), s.order());
    cx.note(|| what.clone());
    cx.nontrivial = true;
    let was = (d.nrows(), d.ncols(), d.order(), d.size(), s.nrows(), s.ncols(), s.order(), s.size());
    guard(|| {
        d.overwrite(&s);
    })
    .map_err(|e| format!("{what}: panic: {e}"))?;
    let now = (d.nrows(), d.ncols(), d.order(), d.size(), s.nrows(), s.ncols(), s.order(), s.size());
    ensure!(was == now, "{what}: shapes change: {was:?} -> {now:?}");
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "pairs-tracked8", f: pairs::<Tr8> },
        Suite { name: "pairs-u8", f: pairs::<u8> },
        Suite { name: "pairs-3xu64", f: pairs::<[u64; 3]> },
        Suite { name: "pairs-clone-from", f: pairs::<Keep> },
        Suite { name: "pairs-serial", f: pairs::<Gen> },
        Suite { name: "pairs-tracked-zst", f: pairs::<TrZ8> },
        Suite { name: "pairs-tracked-wide", f: pairs::<TrWide> },
        Suite { name: "chain-tracked24", f: chain::<Tr24> },
        Suite { name: "chain-tracked4", f: chain::<Tr4> },
        Suite { name: "chain-string", f: chain::<St> },
        Suite { name: "chain-box", f: chain::<Bx> },
        Suite { name: "chain-wide", f: chain::<Wide> },
        Suite { name: "large-u64", f: large::<u64> },
        Suite { name: "large-serial", f: large::<Gen> },
        Suite { name: "large-tracked8", f: large::<Tr8> },
        Suite { name: "large-u16", f: large::<W16> },
        Suite { name: "hollow-tracked8", f: hollow::<Tr8> },
        Suite { name: "hollow-unit", f: hollow::<()> },
        Suite { name: "huge-unit", f: huge::<Z> },
        Suite { name: "huge-unit-align8", f: huge::<Z8> },
    ])
}
