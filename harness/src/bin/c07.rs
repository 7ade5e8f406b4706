//! C07: storage order is transparent - equality, and paired programs over re-stored operands.
use matreex::{Error, Matrix};
use mxv::engine::guard;
use mxv::ops::*;
use mxv::*;

// ------------------------------------------------------------------ equality

/// An element type together with values and their equality.
trait Eqv: Clone + PartialEq + std::fmt::Debug + 'static {
    fn mk(k: u64) -> Self;
    /// are mk(a) and mk(b) equal?
    fn eqv(a: u64, b: u64) -> bool {
        a == b
    }
    const VALS: u64;
}
impl Eqv for u8 {
    fn mk(k: u64) -> u8 {
        k as u8
    }
    const VALS: u64 = 200;
}
impl Eqv for u64 {
    fn mk(k: u64) -> u64 {
        k
    }
    const VALS: u64 = u64::MAX;
}
impl Eqv for String {
    fn mk(k: u64) -> String {
        format!("e{k}")
    }
    const VALS: u64 = 200;
}
impl Eqv for f64 {
    // 0 and -0 are equal, NaN is not equal to itself
    fn mk(k: u64) -> f64 {
        [1.0, 0.0, -0.0, f64::INFINITY, 2.5, -1.0, f64::NAN][(k % 7) as usize]
    }
    fn eqv(a: u64, b: u64) -> bool {
        Self::mk(a) == Self::mk(b)
    }
    const VALS: u64 = 7;
}
/// equality coarser than identity
#[derive(Clone, Debug)]
struct Mod3(u64);
impl PartialEq for Mod3 {
    fn eq(&self, o: &Self) -> bool {
        self.0 % 3 == o.0 % 3
    }
}
impl Eqv for Mod3 {
    fn mk(k: u64) -> Self {
        Mod3(k)
    }
    fn eqv(a: u64, b: u64) -> bool {
        a % 3 == b % 3
    }
    const VALS: u64 = 9;
}
/// zero-sized, and never equal to anything
#[derive(Clone, Debug)]
struct Nope;
impl PartialEq for Nope {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
impl Eqv for Nope {
    fn mk(_: u64) -> Self {
        Nope
    }
    fn eqv(_: u64, _: u64) -> bool {
        false
    }
    const VALS: u64 = 1;
}
impl Eqv for () {
    fn mk(_: u64) {}
    fn eqv(_: u64, _: u64) -> bool {
        true
    }
    const VALS: u64 = 1;
}

/// builds without any of the order operations when it is row-major
fn put<T: Eqv>(md: &Model) -> Option<Matrix<T>> {
    let (a, b) = if md.order == ORDERS[0] { (md.nr, md.nc) } else { (md.nc, md.nr) };
    let mem = md.mem();
    let mut m: Matrix<T> = Matrix::from_row(mem.iter().map(|&k| T::mk(k)).collect::<Vec<_>>());
    m.reshape((a, b)).ok()?;
    if md.order != ORDERS[0] {
        m.switch_order_without_rearrangement();
    }
    ((m.nrows(), m.ncols(), m.order()) == (md.nr, md.nc, md.order)).then_some(m)
}

fn related(src: &mut Src, md: &Model, vals: u64) -> Model {
    let fresh = |src: &mut Src, nr: usize, nc: usize| {
        let mut m = Model::new(draw_order(src), nr, nc, vec![0; nr * nc]);
        m.d.iter_mut().for_each(|x| *x = src.below(vals));
        m
    };
    match src.idx(9) {
        // the same logical matrix
        0 | 1 => md.with_order(draw_order(src)),
        // one or two elements differ
        2 | 3 if md.size() > 0 => {
            let mut m = md.with_order(draw_order(src));
            for _ in 0..1 + src.idx(2) {
                let k = match src.idx(3) {
                    0 => m.size() - 1,
                    1 => 0,
                    _ => src.idx(m.size()),
                };
                m.d[k] = src.below(vals);
            }
            m
        }
        // same memory sequence under another reading
        4 => Model { order: other(md.order), ..md.transposed() },
        // transposed contents, same order
        5 => md.transposed(),
        // another shape with the same memory sequence
        6 => {
            let n = md.size();
            let mem = md.mem();
            if n == 0 {
                let k = src.idx(4);
                let (nr, nc) = if src.flip() { (k, 0) } else { (0, k) };
                return Model::new(draw_order(src), nr, nc, vec![]);
            }
            let ds: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
            let d = *src.pick(&ds);
            Model::from_mem(draw_order(src), d, n / d, &mem)
        }
        7 => fresh(src, md.nr, md.nc),
        _ => {
            let (nr, nc) = draw_shape(src, 4);
            fresh(src, nr, nc)
        }
    }
}

fn equality<T: Eqv>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = draw_any_shape(src, if cx.miri { 3 } else { 5 + 3 * cx.scale as usize }, 60);
    let mut first = Model::new(draw_order(src), nr, nc, vec![0; nr * nc]);
    // mostly all different, sometimes few values
    let few = src.chance(1, 3) && nr * nc <= 400;
    for k in 0..nr * nc {
        first.d[k] = if few { src.below(T::VALS.min(3)) } else { (k as u64 * 7 + 1) % T::VALS };
    }
    let second = related(src, &first, T::VALS);
    let from_first = src.flip();
    let third = related(src, if from_first { &first } else { &second }, T::VALS);
    let mds = [first, second, third];
    cx.note(|| mds.iter().map(|m| m.show_full()).collect::<Vec<_>>().join(" / "));
    let ms: Vec<Matrix<T>> = {
        let mut v = vec![];
        for md in &mds {
            v.push(made!(cx, put::<T>(md)));
        }
        v
    };
    let want = |a: &Model, b: &Model| (a.nr, a.nc) == (b.nr, b.nc) && a.d.iter().zip(&b.d).all(|(&x, &y)| T::eqv(x, y));
    for (x, a) in mds.iter().zip(&ms) {
        for (y, b) in mds.iter().zip(&ms) {
            let (w, g) = (want(x, y), a == b);
            ensure!(g == w, "{} == {} is {g}", x.show_full(), y.show_full());
            ensure!((a != b) == !w, "{} != {} is {}", x.show_full(), y.show_full(), a != b);
        }
        // a matrix and its re-laid copies
        let mut c = a.clone();
        ensure!((a == &c) == want(x, x), "{} and its clone", x.show_full());
        c.switch_order();
        if (c.nrows(), c.ncols()) == (x.nr, x.nc) {
            ensure!((a == &c) == want(x, x) && (&c == a) == want(x, x), "{} and its copy after switch_order()", x.show_full());
        }
    }
    cx.nontrivial = mds[0].order != mds[1].order || (mds[0].nr, mds[0].nc) != (mds[1].nr, mds[1].nc);
    cx.label_if(want(&mds[0], &mds[1]), "equal pair");
    cx.evals = 9;
    Ok(())
}

/// Zero-sized elements: unequal shapes of up to usize::MAX elements.
fn equality_huge(src: &mut Src, cx: &mut Cx) -> R {
    let (a, b) = huge_shape(src);
    let (c, d) = if src.flip() { (b, a) } else { huge_shape(src) };
    if (a, b) == (c, d) {
        return Ok(());
    }
    let (o, q) = (draw_order(src), draw_order(src));
    cx.note(|| format!("{a}x{b} {o:?} and {c}x{d} {q:?} of ()"));
    let (x, y): (Matrix<Z>, Matrix<Z>) = (huge_zst(a, b, o), huge_zst(c, d, q));
    cx.nontrivial = true;
    ensure!(x != y && y != x, "{a}x{b} {o:?} equals {c}x{d} {q:?}");
    let conf = x.is_elementwise_operation_conformable(&y);
    ensure!(!conf, "{a}x{b} {o:?} is conformable with {c}x{d} {q:?}");
    let e = x.elementwise_operation(&y, |_, _| ());
    ensure!(e == Err(Error::ShapeNotConformable), "elementwise_operation of {a}x{b} {o:?} and {c}x{d} {q:?} gives {}", err_name(&e));
    let mul = x.is_multiplication_like_operation_conformable(&y);
    ensure!(mul == (b == c), "{a}x{b} {o:?} times {c}x{d} {q:?}: conformable is {mul}");
    Ok(())
}

// ------------------------------------------------------------------ paired programs

/// operation families whose meaning does not mention the storage order
const AGNOSTIC: [usize; 26] = [3, 4, 5, 6, 7, 11, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 23, 23, 24, 25, 26, 28, 29, 31];

fn agnostic(op: Op) -> Op {
    match op {
        Op::SwitchOrder { a, .. } => Op::SwitchOrder { a, rearrange: true },
        Op::SetOrder { a, o, .. } => Op::SetOrder { a, o, rearrange: true },
        // element iteration follows the storage order: only complete visits are agnostic
        Op::IterWrite { a, kind: kind @ 0..=1, n, rev, v, .. } => Op::IterWrite { a, kind, n, rev, take: 1 << 20, v },
        op => op,
    }
}

/// What can be seen of a matrix without asking for its order.
fn facts<E: Elem>(m: &Matrix<E>) -> Result<(Model, String), String> {
    let md = coherent(m)?;
    let mut items: Vec<(usize, usize, u64)> = m.iter_elements_with_index().map(|(i, e)| (i.row, i.col, e.val())).collect();
    items.sort();
    let rows: Vec<Vec<u64>> = m.iter_rows().map(|r| r.map(|e| e.val()).collect()).collect();
    let cols: Vec<Vec<u64>> = m.iter_cols().map(|r| r.map(|e| e.val()).collect()).collect();
    let text = format!(
        "{:?} {} {} {:?} {items:?} {rows:?} {cols:?}\n{m}\n{m:#}",
        m.shape(),
        m.is_empty(),
        m.is_square(),
        m.ensure_square().map(|_| ())
    );
    Ok((md, text))
}

fn left_operand(op: &Op) -> Option<(usize, usize)> {
    match *op {
        Op::Elementwise { a, d, .. } | Op::Operator { a, d, .. } | Op::Mul { a, d, .. } => Some((a, d)),
        Op::ElementwiseAssign { a, .. } | Op::OperatorAssign { a, .. } => Some((a, a)),
        _ => None,
    }
}

fn paired<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let lim = Lim { ext: if cx.miri { 3 } else { 5 + 3 * cx.scale as usize }, par: false, elem: size_of::<E>(), large: if !cx.miri && src.chance(1, 60) { 2 } else { 0 } };
    let mut mds: Models = (0..SLOTS).map(|s| draw_any_model::<E>(src, lim.ext, lim.large, 100 * (s as u64 + 1))).collect();
    match src.idx(4) {
        0 => {}
        1 => mds[1] = Model { d: distinct::<E>(mds[0].size(), 500), ..mds[0].clone() },
        2 => mds[1] = mds[0].clone(),
        _ => {
            let t = mds[0].transposed();
            mds[1] = Model { d: distinct::<E>(t.size(), 500), ..t }
        }
    }
    let (mut p, mut q): (Pool<E>, Pool<E>) = (vec![], vec![]);
    let mut differ = false;
    for md in &mds {
        let (a, b) = (draw_order(src), draw_order(src));
        differ |= a != b;
        p.push(made!(cx, obtain_any::<E>(src, &md.with_order(a))).0);
        q.push(made!(cx, obtain_any::<E>(src, &md.with_order(b))).0);
        cx.note(|| format!("{} stored {a:?} and {b:?}", md.show()));
    }
    let steps = 1 + src.idx(if cx.miri { 3 } else { 6 });
    cx.evals = steps as u64;
    for i in 0..=steps {
        // the two runs must look the same
        let mut obs = vec![];
        for (s, (x, y)) in p.iter().zip(&q).enumerate() {
            match (guard(|| facts(x)).unwrap_or_else(Err), guard(|| facts(y)).unwrap_or_else(Err)) {
                (Ok((a, t)), Ok((b, u))) => {
                    ensure!((a.nr, a.nc) == (b.nr, b.nc) && a.d == b.d, "slot {s}: {} and {} after step {i}", a.show_full(), b.show_full());
                    ensure!(t == u, "slot {s} ({:?} and {:?}) looks different after step {i}:\n{t}\n{u}", a.order, b.order);
                    ensure!(x == y && y == x, "slot {s}: equal matrices {} and {} compare unequal", a.show_full(), b.show_full());
                    obs.push(a);
                }
                (Err(_), Err(_)) => {
                    cx.label("incoherent in both runs");
                    return Ok(());
                }
                (Err(e), _) | (_, Err(e)) => return Err(format!("slot {s} after step {i}, in one of the runs: {e}")),
            }
        }
        if i == steps {
            break;
        }
        // re-store one operand of the second run in the other order
        if src.flip() {
            let s = src.idx(SLOTS);
            let md = obs[s].with_order(other(q[s].order()));
            cx.note(|| format!("re-store slot {s} {:?}", md.order));
            q[s] = made!(cx, obtain_any::<E>(src, &md)).0;
            differ = true;
        }
        let k = *src.pick(&AGNOSTIC);
        let op = agnostic(draw_kind(src, &obs, lim, 1000 * (i as u64 + 1), k));
        cx.note(|| format!("{op:?}"));
        let orders = left_operand(&op).map(|(a, d)| (a, d, p[a].order(), q[a].order()));
        let (x, y) = (guard(|| exec(&op, &mut p)), guard(|| exec(&op, &mut q)));
        match (&x, &y) {
            (Ok(x), Ok(y)) => ensure!(x == y, "step {i} {op:?} is observed as {x:?} and as {y:?} (result codes or read elements)"),
            (Err(_), Err(_)) => return Ok(()),
            _ => return Err(format!("step {i} {op:?} panics in one of the runs only: {x:?} / {y:?}")),
        }
        if let Some((_, d, po, qo)) = orders
            && x == Ok(vec![0])
        {
            ensure!(p[d].order() == po, "step {i} {op:?}: the result is {:?} but the left operand was {po:?}", p[d].order());
            ensure!(q[d].order() == qo, "step {i} {op:?}: the result is {:?} but the left operand was {qo:?}", q[d].order());
        }
    }
    cx.nontrivial = differ;
    ledger::check()
}

/// Errors of operations on matrices without elements but with huge extents.
fn hollow(src: &mut Src, cx: &mut Cx) -> R {
    let ext = |src: &mut Src| *src.pick(&[0usize, 1, 3, 1 << 31, 1 << 32, 1 << 60, isize::MAX as usize, usize::MAX]);
    let (a, b, c) = (ext(src), ext(src), ext(src));
    let (l, r) = match src.idx(3) {
        0 => ((a, 0), (0, c)),
        1 => ((0, b), (b.min(3), 0)),
        _ => ((a, 0), (c, 0)),
    };
    // only products which cannot succeed by allocating
    let n = l.0 as u128 * r.1 as u128;
    if l.1 == r.0 && n > 64 && n <= isize::MAX as u128 / 8 {
        return Ok(());
    }
    cx.note(|| format!("{l:?} and {r:?} without elements"));
    cx.nontrivial = true;
    let mk = |s: (usize, usize), o| {
        let m = Model::new(o, s.0, s.1, vec![]);
        obtain::<W64>(&m, 0).map(|x| x.0)
    };
    let mut seen: Option<(String, _, _)> = None;
    for o in ORDERS {
        for q in ORDERS {
            let (x, y) = (made!(cx, mk(l, o)), made!(cx, mk(r, q)));
            let mul = guard(|| x.clone().multiply(y.clone()).map(|m| (m.nrows(), m.ncols(), coherent(&m).map(|m| m.d))));
            let add = guard(|| x.elementwise_add(&y).map(|m| (m.nrows(), m.ncols())));
            let now = (format!("{} {x} {y}", x == y), mul, add);
            match &seen {
                None => seen = Some(now),
                Some(s) => ensure!(*s == now, "{l:?} and {r:?}: {s:?} but stored {o:?}/{q:?} {now:?}"),
            }
        }
    }
    Ok(())
}

/// Positions beyond 16 bits: the same program on equal matrices in all combinations of orders.
fn giant(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = draw_giant(src);
    let base: Vec<u64> = (0..(nr * nc) as u64).map(|k| k.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20).collect();
    let mut changed = base.clone();
    let at = src.idx(nr * nc);
    changed[at] ^= 1;
    cx.note(|| format!("{nr}x{nc} matrices that differ at ({}, {})", at / nc, at % nc));
    cx.nontrivial = true;
    for o in ORDERS {
        for q in ORDERS {
            let (x, y) = (Model::new(o, nr, nc, base.clone()), Model::new(q, nr, nc, base.clone()));
            let z = Model::new(q, nr, nc, changed.clone());
            let x: Matrix<u64> = made!(cx, put(&x));
            let y: Matrix<u64> = made!(cx, put(&y));
            let z: Matrix<u64> = made!(cx, put(&z));
            let what = format!("{nr}x{nc} {o:?} and {q:?}");
            ensure!(x == y && y == x, "{what}: equal matrices compare different");
            ensure!(x != z && z != x, "{what}: matrices that differ at ({}, {}) compare equal", at / nc, at % nc);
            let d = guard(|| x.elementwise_operation(&z, |a, b| a ^ b)).map_err(|e| format!("{what}: panic: {e}"))?;
            let Ok(d) = d else { return Err(format!("{what}: not conformable")) };
            ensure!((d.nrows(), d.ncols(), d.order()) == (nr, nc, o), "{what}: the result is {}x{} {:?}", d.nrows(), d.ncols(), d.order());
            let bad: Vec<_> = d.iter_elements_with_index().filter(|(_, v)| **v != 0).map(|(i, v)| (i.row, i.col, *v)).collect();
            ensure!(bad == [(at / nc, at % nc, 1)], "{what}: combining them differs at {:?} instead of ({}, {})", &bad[..bad.len().min(5)], at / nc, at % nc);
            let mut w = y.clone();
            w.overwrite(&x);
            ensure!(w == x, "{what}: overwriting one with the other changes it");
            w.set_order(o);
            ensure!(w == x && w == y, "{what}: set_order changes it");
        }
    }
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "equality-u8", f: equality::<u8> },
        Suite { name: "equality-string", f: equality::<String> },
        Suite { name: "equality-f64", f: equality::<f64> },
        Suite { name: "equality-mod3", f: equality::<Mod3> },
        Suite { name: "equality-zst-never", f: equality::<Nope> },
        Suite { name: "equality-unit", f: equality::<()> },
        Suite { name: "equality-huge", f: equality_huge },
        Suite { name: "paired-u64", f: paired::<W64> },
        Suite { name: "paired-tracked8", f: paired::<Tr8> },
        Suite { name: "paired-unit", f: paired::<Z> },
        Suite { name: "giant", f: giant },
        Suite { name: "hollow", f: hollow },
    ])
}
