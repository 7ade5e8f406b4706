//! C05: transpose is the exact transpose; order changes preserve (or deliberately transpose) contents.
use mxv::*;

#[derive(Clone, Copy, Debug)]
enum Act {
    Transpose,
    Switch,
    Set(usize),
    SwitchKeep,
    SetKeep(usize),
}

fn act<E: Elem>(m: &mut matreex::Matrix<E>, a: Act) {
    // every method returns the matrix itself
    let this = m as *const _;
    let ret = match a {
        Act::Transpose => m.transpose(),
        Act::Switch => m.switch_order(),
        Act::Set(o) => m.set_order(ORDERS[o]),
        Act::SwitchKeep => m.switch_order_without_rearrangement(),
        Act::SetKeep(o) => m.set_order_without_rearrangement(ORDERS[o]),
    } as *const _;
    assert!(std::ptr::eq(this, ret), "the returned reference is not the matrix");
}

/// What the action does to a logical matrix (of values or of identities).
fn model(md: &Model, a: Act) -> Model {
    let keep = |o| {
        // memory sequence stays, presented the other way
        if o == md.order { md.clone() } else { Model { order: o, ..md.transposed() } }
    };
    match a {
        Act::Transpose => md.transposed(),
        Act::Switch => md.with_order(other(md.order)),
        Act::Set(o) => md.with_order(ORDERS[o]),
        Act::SwitchKeep => keep(other(md.order)),
        Act::SetKeep(o) => keep(ORDERS[o]),
    }
}

fn draw_act(src: &mut Src) -> Act {
    match src.idx(7) {
        0 => Act::Transpose,
        1 => Act::Switch,
        2 => Act::Set(0),
        3 => Act::Set(1),
        4 => Act::SwitchKeep,
        5 => Act::SetKeep(0),
        _ => Act::SetKeep(1),
    }
}

fn apply<E: Elem>(md: Model, path: usize, acts: &[Act], cx: &mut Cx) -> R {
    let Some((mut m, md)) = obtain::<E>(&md, path) else {
        cx.label("no matrix");
        return Ok(());
    };
    let mut want = md.clone();
    let mut want_ids = Model { d: lids(&m).iter().map(|&i| i as u64).collect(), ..md.clone() };
    let c0 = ledger::lock().counts;
    for (k, &a) in acts.iter().enumerate() {
        let mem_before = ids(&m);
        act(&mut m, a);
        want = model(&want, a);
        want_ids = model(&want_ids, a);
        let what = || format!("{} after {:?}", md.show(), &acts[..=k]);
        let c1 = ledger::lock().counts;
        ensure!(c0 == c1, "{}: elements were created, cloned or dropped: {c0:?} -> {c1:?}", what());
        same(&m, &want).map_err(|e| format!("{}: {e}", what()))?;
        if E::TRACKED && !E::ZST {
            let got: Vec<u64> = lids(&m).iter().map(|&i| i as u64).collect();
            ensure!(got == want_ids.d, "{}: other elements than the original ones are at the positions", what());
        }
        if matches!(a, Act::SwitchKeep | Act::SetKeep(_)) {
            ensure!(ids(&m) == mem_before, "{}: the memory-order sequence changed", what());
        }
        cx.evals += 1;
    }
    Ok(())
}

/// Every shape up to the bound x both orders x every action, and the involutions.
fn laws<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let max = if cx.miri { 5 } else { [13, 24, 40][cx.scale.min(2) as usize] };
    let md = draw_model::<E>(src, max, 1);
    let first = draw_act(src);
    let path = if src.is_exhaustive() { 0 } else { src.idx(PATHS) };
    cx.note(|| format!("{} {first:?} twice, then a transpose", md.show()));
    cx.nontrivial = md.nr != 1 && md.nc != 1;
    cx.label_if(md.size() == 0, "no elements");
    cx.evals = 0;
    let orig = md.clone();
    apply::<E>(md, path, &[first, first, Act::Transpose, Act::Transpose], cx)?;
    // the oracle itself: transposing is an involution
    assert_eq!(orig.transposed().transposed(), orig);
    Ok(())
}

fn compose<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let md = draw_any_model::<E>(src, if cx.miri { 4 } else { 9 + 8 * cx.scale as usize }, 60, 1);
    let path = src.idx(PATHS);
    let acts: Vec<Act> = (0..1 + src.idx(9)).map(|_| draw_act(src)).collect();
    cx.note(|| format!("{} {acts:?}", md.show()));
    cx.nontrivial = md.nr >= 2 && md.nc >= 2 && acts.len() >= 2;
    cx.evals = 0;
    apply::<E>(md, path, &acts, cx)
}

/// Larger matrices: the permutation has long cycles and indices beyond u8/u16.
fn large<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let top = [700, 2000][cx.scale.min(1) as usize];
    let a = 1 + src.idx(top);
    let top = match src.idx(4) {
        0 => 3,
        1 => 40,
        _ => (100_000 / a).clamp(1, 400),
    };
    let b = 1 + src.idx(top);
    let (nr, nc) = if src.chance(1, 24) { draw_giant(src) } else if src.chance(1, 4) { draw_large(src) } else if src.flip() { (a, b) } else { (b, a) };
    let md = Model::new(draw_order(src), nr, nc, distinct::<E>(nr * nc, 1));
    let acts = [draw_act(src), Act::Transpose];
    cx.note(|| format!("{} {acts:?}", md.show()));
    cx.nontrivial = true;
    cx.evals = 0;
    apply::<E>(md, 0, &acts, cx)
}

fn huge<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (mut nr, mut nc) = huge_shape(src);
    let mut order = draw_order(src);
    let mut m: matreex::Matrix<E> = huge_zst(nr, nc, order);
    let acts: Vec<Act> = (0..1 + src.idx(4)).map(|_| draw_act(src)).collect();
    cx.note(|| format!("{nr}x{nc} {order:?} of zero-sized elements: {acts:?}"));
    for (k, &a) in acts.iter().enumerate() {
        act(&mut m, a);
        match a {
            Act::Transpose => (nr, nc) = (nc, nr),
            Act::Switch => order = other(order),
            Act::Set(o) => order = ORDERS[o],
            Act::SwitchKeep => {
                order = other(order);
                (nr, nc) = (nc, nr)
            }
            Act::SetKeep(o) => {
                if ORDERS[o] != order {
                    order = ORDERS[o];
                    (nr, nc) = (nc, nr)
                }
            }
        }
        let got = (m.nrows(), m.ncols(), m.order(), m.size());
        ensure!(got == (nr, nc, order, nr * nc), "after {:?}: {got:?} instead of {nr}x{nc} {order:?}", &acts[..=k]);
    }
    cx.nontrivial = true;
    Ok(())
}

/// No elements, but a huge other extent.
fn hollow<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let n = *src.pick(&[1usize, 7, 1 << 32, isize::MAX as usize, usize::MAX]);
    let (nr, nc) = if src.flip() { (n, 0) } else { (0, n) };
    let acts: Vec<Act> = (0..1 + src.idx(4)).map(|_| draw_act(src)).collect();
    cx.note(|| format!("{nr}x{nc}: {acts:?}"));
    cx.nontrivial = true;
    let md = Model::new(draw_order(src), nr, nc, vec![]);
    apply::<E>(md, 0, &acts, cx)
}

fn main() {
    main_entry(&[
        Suite { name: "laws-u8", f: laws::<W8> },
        Suite { name: "laws-tracked4", f: laws::<Tr4> },
        Suite { name: "laws-3xu64", f: laws::<W24> },
        Suite { name: "laws-wide", f: laws::<Wide> },
        Suite { name: "laws-string", f: laws::<St> },
        Suite { name: "laws-tracked-zst", f: laws::<TrZ8> },
        Suite { name: "compose-u8", f: compose::<W8> },
        Suite { name: "compose-tracked24", f: compose::<Tr24> },
        Suite { name: "compose-box", f: compose::<Bx> },
        Suite { name: "large-u64", f: large::<W64> },
        Suite { name: "large-u16", f: large::<W16> },
        Suite { name: "huge-unit", f: huge::<Z> },
        Suite { name: "hollow-string", f: hollow::<St> },
    ])
}
