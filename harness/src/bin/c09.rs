//! C09: reshape and resize act on the memory-order sequence; failed operations change nothing.
use matreex::{Error, Index, Matrix, Shape, WrappingIndex};
use mxv::engine::guard;
use mxv::ops::*;
use mxv::*;

/// Everything a caller can observe of a matrix.
#[derive(PartialEq, Clone, Debug)]
struct Snap {
    md: Model,
    ids: Vec<u32>,
    cap: usize,
}

fn snap<E: Elem>(m: &Matrix<E>) -> Option<Snap> {
    let md = guard(|| coherent(m)).ok()?.ok()?;
    Some(Snap { md, ids: ids(m), cap: m.capacity() })
}

fn live() -> i64 {
    ledger::live()
}

/// A target shape in one of the accepted forms.
#[derive(Clone, Copy, Debug)]
struct Target(usize, usize, u8);

fn draw_target(src: &mut Src, md: &Model, ext: usize, elem: usize) -> Target {
    let size = md.size();
    let (r, c) = match src.idx(9) {
        0 | 1 => {
            if size == 0 {
                if src.flip() { (0, src.idx(5)) } else { (src.idx(5), 0) }
            } else {
                let ds: Vec<usize> = (1..=size).filter(|d| size % d == 0).collect();
                let d = *src.pick(&ds);
                (d, size / d)
            }
        }
        2 | 3 => draw_any_shape(src, ext, if size > 200 { 2 } else { 100 }),
        4 => (md.nc, md.nr),
        5 => {
            // same extent in one dimension, or a size off by little
            let d = src.idx(4);
            match d {
                0 => (md.nr, md.nc + 1),
                1 => (md.nr + 1, md.nc),
                2 => (1, size + 1),
                _ => (size.saturating_sub(1), 1),
            }
        }
        6 => {
            // a*b = size modulo 2^64, but not truly
            let a = src.u64() | 1;
            (a as usize, inv(a).wrapping_mul(size as u64) as usize)
        }
        7 => {
            let k = src.range(1, 63);
            // 2^64, i.e. 0 modulo 2^64
            ((1usize << k), (1usize << (63 - k)) << 1)
        }
        _ => {
            let big = [usize::MAX, isize::MAX as usize, usize::MAX / 2 + 1, (isize::MAX as usize) / elem.max(1) + 1, usize::MAX - 1];
            (*src.pick(&big), src.range(if elem == 0 { 2 } else { 1 }, 3))
        }
    };
    let (r, c) = if src.flip() { (c, r) } else { (r, c) };
    Target(r, c, src.below(4) as u8)
}

fn go<E: Elem>(m: &mut Matrix<E>, t: Target, resize: bool) -> Result<(), Error> {
    macro_rules! both {
        ($s:expr) => {
            if resize { m.resize($s).map(|_| ()) } else { m.reshape($s).map(|_| ()) }
        };
    }
    match t.2 {
        0 => both!((t.0, t.1)),
        1 => both!([t.0, t.1]),
        2 => both!(Shape::new(t.0, t.1)),
        _ => both!(TickShape(t.0, t.1)),
    }
}

/// Compares the matrix with its state before a failed call.
fn unchanged<E: Elem>(m: &Matrix<E>, before: &Snap, what: &str) -> R {
    let after = match snap(m) {
        Some(s) => s,
        None => return Err(format!("{what} failed and left an incoherent matrix")),
    };
    if after != *before {
        return Err(format!(
            "{what} failed but changed the matrix: {} capacity {} ids {:?}, before {} capacity {} ids {:?}",
            after.md.show_full(),
            after.cap,
            after.ids,
            before.md.show_full(),
            before.cap,
            before.ids
        ));
    }
    ledger::check()
}

fn start<E: Elem>(src: &mut Src, cx: &Cx) -> Option<(Matrix<E>, Matrix<E>)> {
    let steps = if cx.miri { 3 } else { 6 };
    let (mut pool, _) = history::<E>(src, 5 + cx.scale as usize, steps, 60)?;
    let a = pool.remove(0);
    let b = pool.remove(0);
    drop(pool);
    Some((a, b))
}

// ------------------------------------------------------------------ reshape

fn reshape<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (mut m, _) = made!(cx, start::<E>(src, cx));
    let times = 1 + src.idx(3);
    cx.evals = times as u64;
    for _ in 0..times {
        let before = made!(cx, snap(&m));
        let (md, alive) = (&before.md, live());
        let t = draw_target(src, md, 6, size_of::<E>());
        let what = format!("reshape({t:?}) of {}", md.show());
        cx.note(|| what.clone());
        let fits = t.0 as u128 * t.1 as u128 == md.size() as u128;
        cx.nontrivial |= (t.0, t.1) != (md.nr, md.nc);
        let r = go(&mut m, t, false);
        if !fits {
            ensure!(r.is_err(), "{what} succeeds although the sizes differ");
            cx.label("mismatch");
            unchanged(&m, &before, &what)?;
        } else {
            ensure!(r.is_ok(), "{what} fails ({r:?}) although the sizes agree");
            cx.label("fits");
            ensure!((m.nrows(), m.ncols()) == (t.0, t.1), "{what}: the shape is {}x{}", m.nrows(), m.ncols());
            ensure!(m.order() == md.order, "{what} changes the order");
            let got = m.iter_elements().map(|e| e.val()).collect::<Vec<_>>();
            ensure!(got == md.mem(), "{what}: the memory-order sequence is {got:?} instead of {:?}", md.mem());
            ensure!(ids(&m) == before.ids, "{what}: elements were replaced: {:?} instead of {:?}", ids(&m), before.ids);
        }
        ensure!(live() == alive, "{what}: {} elements alive instead of {alive}", live());
        ledger::check().map_err(|e| format!("{what}: {e}"))?;
    }
    drop(m);
    ledger::check()
}

// ------------------------------------------------------------------ resize

fn resize<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (mut m, _) = made!(cx, start::<E>(src, cx));
    let times = 1 + src.idx(3);
    cx.evals = times as u64;
    for _ in 0..times {
        let before = made!(cx, snap(&m));
        let (md, alive) = (&before.md, live());
        let t = if !cx.miri && src.chance(1, 40) {
            Target(src.range(20, 70), src.range(20, 60), 0)
        } else {
            draw_target(src, md, 7, size_of::<E>())
        };
        let what = format!("resize({t:?}) of {}", md.show());
        cx.note(|| what.clone());
        let n = t.0 as u128 * t.1 as u128;
        // what can neither be allocated nor enumerated here is C08's business
        if n > 1 << 20 && n <= usize::MAX as u128 && n * size_of::<E>() as u128 <= isize::MAX as u128 {
            cx.label("too large to try");
            continue;
        }
        cx.nontrivial |= n != md.size() as u128;
        match guard(|| go(&mut m, t, true)) {
            // whether it may panic is C08's business
            Err(_) => {
                cx.label("panic");
                return Ok(());
            }
            Ok(Err(e)) => {
                ensure!(n > 1 << 20, "{what} fails with {e:?}");
                cx.label("overflow");
                unchanged(&m, &before, &what)?;
                ensure!(live() == alive, "{what} failed, but {} elements are alive instead of {alive}", live());
            }
            Ok(Ok(())) => {
                let n = n as usize;
                ensure!((m.nrows(), m.ncols()) == (t.0, t.1), "{what}: the shape is {}x{}", m.nrows(), m.ncols());
                ensure!(m.order() == md.order, "{what} changes the order");
                ensure!(m.size() == n && m.iter_elements().len() == n, "{what}: there are {} elements", m.iter_elements().len());
                let keep = n.min(md.size());
                let mut want = md.mem();
                want.truncate(n);
                want.resize(n, E::default_val());
                let got = m.iter_elements().map(|e| e.val()).collect::<Vec<_>>();
                ensure!(got == want, "{what}: the memory-order sequence is {got:?} instead of {want:?}");
                ensure!(
                    ids(&m)[..keep] == before.ids[..keep],
                    "{what}: kept elements were replaced: {:?} instead of {:?}",
                    &ids(&m)[..keep],
                    &before.ids[..keep]
                );
                if E::TRACKED {
                    let want = alive + n as i64 - md.size() as i64;
                    ensure!(live() == want, "{what}: {} elements alive instead of {want}", live());
                }
                cx.label(if n > md.size() { "growth" } else if n < md.size() { "shrinkage" } else { "same size" });
            }
        }
        ledger::check().map_err(|e| format!("{what}: {e}"))?;
    }
    drop(m);
    ledger::check()
}

/// Zero-sized elements in numbers that cannot be visited.
fn huge<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = huge_shape(src);
    let order = draw_order(src);
    let mut m = made!(cx, guard(|| huge_zst::<E>(nr, nc, order)).ok());
    let size = nr * nc;
    ensure!(m.size() == size && m.order() == order, "reshape of a huge matrix lost its size or order");
    cx.nontrivial = true;
    let n_ops = 1 + src.idx(3);
    cx.evals = n_ops as u64;
    for _ in 0..n_ops {
        let (nr, nc, size) = (m.nrows(), m.ncols(), m.size());
        let (mut r, mut c) = match src.idx(5) {
            0 => (nc, nr),
            1 => huge_shape(src),
            2 => (nr, nc.wrapping_add(1)),
            3 => {
                let a = src.u64() | 1;
                (a as usize, inv(a).wrapping_mul(size as u64) as usize)
            }
            _ => (size / 2, 2),
        };
        if src.flip() {
            (r, c) = (c, r);
        }
        let n = r as u128 * c as u128;
        let t = Target(r, c, src.below(4) as u8);
        let resize = src.flip();
        if resize && n > size as u128 && n <= usize::MAX as u128 {
            continue;
        }
        let what = format!("{}({t:?}) of {nr}x{nc} {order:?}", if resize { "resize" } else { "reshape" });
        cx.note(|| what.clone());
        let fine = if resize { n <= size as u128 } else { n == size as u128 };
        let got = go(&mut m, t, resize);
        ensure!(got.is_ok() == fine, "{what} gives {got:?}");
        let want = if fine { (r, c) } else { (nr, nc) };
        ensure!((m.nrows(), m.ncols()) == want, "{what}: the shape is {}x{} instead of {want:?}", m.nrows(), m.ncols());
        ensure!(m.size() == want.0 * want.1 && m.iter_elements().len() == m.size(), "{what}: there are {} elements", m.size());
        ensure!(m.order() == order, "{what} changes the order");
    }
    Ok(())
}

// ------------------------------------------------------------------ failing operations

#[derive(Debug)]
enum Call {
    Reshape(Target),
    Resize(Target),
    Swap((usize, usize), (usize, usize), u8),
    Wrap((isize, isize), (isize, isize), bool),
    Lines(bool, usize, usize),
    Assign(u8),
    Op(bool, bool),
}

fn bad(src: &mut Src, n: usize) -> usize {
    match src.idx(5) {
        0 | 1 => n,
        2 => n + 1 + src.idx(2),
        3 => usize::MAX - src.idx(2),
        _ => 1usize << src.range(8, 63),
    }
}

fn good(src: &mut Src, n: usize) -> usize {
    if n == 0 { 0 } else { src.idx(n) }
}

fn draw_call(src: &mut Src, md: &Model, elem: usize) -> Call {
    match src.idx(8) {
        0 => Call::Reshape(draw_target(src, md, 6, elem)),
        1 => {
            let a = src.u64() | (1 << 63);
            Call::Resize(if src.flip() {
                Target(a as usize, src.range(2, 9), 0)
            } else {
                let n = (isize::MAX as usize) / elem.max(1) + 1;
                Target(n, if elem == 0 { 4 } else { 1 }, src.below(4) as u8)
            })
        }
        2 | 3 => {
            let i = (good(src, md.nr), good(src, md.nc));
            let mut j = (good(src, md.nr), good(src, md.nc));
            match src.idx(3) {
                0 => j.0 = bad(src, md.nr),
                1 => j.1 = bad(src, md.nc),
                _ => j = (bad(src, md.nr), bad(src, md.nc)),
            }
            let kind = src.below(4) as u8;
            if src.flip() { Call::Swap(i, j, kind) } else { Call::Swap(j, i, kind) }
        }
        4 => {
            let i = (src.u64() as isize, src.idx(5) as isize - 2);
            let j = (src.idx(5) as isize - 2, src.u64() as isize);
            Call::Wrap(i, j, src.flip())
        }
        5 => {
            let rows = src.flip();
            let n = if rows { md.nr } else { md.nc };
            let (x, y) = (bad(src, n), if src.chance(1, 4) { bad(src, n) } else { good(src, n) });
            if src.flip() { Call::Lines(rows, x, y) } else { Call::Lines(rows, y, x) }
        }
        6 => Call::Assign(src.below(6) as u8),
        _ => Call::Op(src.flip(), src.flip()),
    }
}

fn failing<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (mut m, mut rhs) = made!(cx, start::<E>(src, cx));
    if src.flip() {
        // shapes that are easily mistaken for conformable ones
        let md = made!(cx, snap(&m)).md;
        let (nr, nc) = match src.idx(4) {
            0 => (md.nc, md.nr),
            1 => (1, md.size()),
            2 => (md.nr, md.nc + 1),
            _ => (md.nr + 1, md.nc),
        };
        let order = draw_order(src);
        let vals = distinct::<E>(nr * nc, 4000);
        rhs = made!(cx, obtain_any(src, &Model::new(order, nr, nc, vals))).0;
    }
    cx.evals = 4;
    for _ in 0..4 {
        let before = made!(cx, snap(&m));
        let other = made!(cx, snap(&rhs));
        let alive = live();
        let call = draw_call(src, &before.md, size_of::<E>());
        let what = format!("{call:?} on {} with {}", before.md.show(), other.md.show());
        cx.note(|| what.clone());
        let mut owned_rhs = 0;
        let mut closure = |x: &mut E, y: &E| x.set(E::norm(x.val().wrapping_add(y.val()).wrapping_add(1)));
        let r = guard(|| match call {
            Call::Reshape(t) => go(&mut m, t, false),
            Call::Resize(t) => go(&mut m, t, true),
            Call::Swap(i, j, kind) => match kind {
                0 => m.swap(i, j),
                1 => m.swap([i.0, i.1], j),
                2 => m.swap(Index::new(i.0, i.1), TickIdx(j.0, j.1)),
                _ => m.swap(TickIdx(i.0, i.1), Index::new(j.0, j.1)),
            }
            .map(|_| ()),
            Call::Wrap(i, j, first) => {
                let w = WrappingIndex::new(i.0, i.1);
                if first { m.swap(w, (j.0 as usize, j.1 as usize)) } else { m.swap((j.0 as usize, j.1 as usize), w) }.map(|_| ())
            }
            Call::Lines(true, a, b) => m.swap_rows(a, b).map(|_| ()),
            Call::Lines(false, a, b) => m.swap_cols(a, b).map(|_| ()),
            Call::Assign(k) => match k {
                0 => m.elementwise_operation_assign(&rhs, &mut closure),
                1 => m.elementwise_add_assign(&rhs),
                2 => m.elementwise_sub_assign(&rhs),
                3 => m.elementwise_mul_assign(&rhs),
                4 => m.elementwise_div_assign(&rhs),
                _ => m.elementwise_rem_assign(&rhs),
            }
            .map(|_| ()),
            Call::Op(plus, by_ref) => {
                match (plus, by_ref) {
                    (true, true) => m += &rhs,
                    (false, true) => m -= &rhs,
                    (plus, false) => {
                        let r = rhs.clone();
                        owned_rhs = r.size();
                        if plus { m += r } else { m -= r }
                    }
                }
                Ok(())
            }
        });
        let failed = match (&r, &call) {
            (Ok(Err(_)), _) => true,
            // the operators report failure by panicking
            (Err(_), Call::Op(..)) => true,
            (Err(_), _) => {
                cx.label("panic");
                return Ok(());
            }
            _ => false,
        };
        if failed {
            cx.nontrivial = true;
            cx.label(match call {
                Call::Reshape(_) => "failed reshape",
                Call::Resize(_) => "failed resize",
                Call::Swap(..) => "failed swap",
                Call::Wrap(..) => "failed wrapping swap",
                Call::Lines(..) => "failed line swap",
                Call::Assign(_) => "failed assign",
                Call::Op(..) => "failed operator",
            });
            unchanged(&m, &before, &what)?;
            ensure!(live() == alive, "{what}: {} elements alive instead of {alive} ({owned_rhs} were moved in)", live());
            unchanged(&rhs, &other, &format!("the other operand: {what}"))?;
        } else {
            cx.label("succeeded");
            if m.size() > 2000 {
                return Ok(());
            }
        }
        ledger::check().map_err(|e| format!("{what}: {e}"))?;
    }
    drop((m, rhs));
    ledger::check()
}

fn main() {
    main_entry(&[
        Suite { name: "reshape-tracked8", f: reshape::<Tr8> },
        Suite { name: "reshape-u8", f: reshape::<W8> },
        Suite { name: "reshape-tracked-zst", f: reshape::<TrZ1> },
        Suite { name: "resize-tracked4", f: resize::<Tr4> },
        Suite { name: "resize-tracked24", f: resize::<Tr24> },
        Suite { name: "resize-string", f: resize::<St> },
        Suite { name: "resize-tracked-zst", f: resize::<TrZ8> },
        Suite { name: "resize-tracked-wide", f: resize::<TrWide> },
        Suite { name: "huge-unit", f: huge::<Z> },
        Suite { name: "huge-unit-align8", f: huge::<Z8> },
        Suite { name: "failing-tracked8", f: failing::<Tr8> },
        Suite { name: "failing-u16", f: failing::<W16> },
        Suite { name: "failing-box", f: failing::<Bx> },
        Suite { name: "failing-unit", f: failing::<TrZ1> },
    ])
}
