//! C01: operation histories against the row-of-rows model, with element ledger.
use mxv::ops::*;
use mxv::*;
use std::collections::HashSet;

fn verify<E: Elem>(p: &Pool<E>, ms: &Models, what: &dyn Fn() -> String) -> R {
    let mut total = 0i64;
    let mut seen = HashSet::new();
    for (s, (m, want)) in p.iter().zip(ms).enumerate() {
        same(m, want).map_err(|e| format!("{}: slot {s}: {e}", what()))?;
        total += want.size() as i64;
        if E::TRACKED && !E::ZST {
            for id in ids(m) {
                ensure!(seen.insert(id), "{}: element #{id} is stored at two positions", what());
            }
        }
    }
    if E::TRACKED {
        let live = ledger::live();
        ensure!(live == total, "{}: {live} elements are alive but the matrices hold {total}", what());
    }
    ledger::check().map_err(|e| format!("{}: {e}", what()))
}

fn history<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let lim = Lim { ext: if cx.miri { 3 } else { 4 + 2 * cx.scale as usize }, par: !cx.miri && src.chance(1, 8), elem: size_of::<E>(), large: if !cx.miri && src.chance(1, 80) { 3 } else { 0 } };
    let steps = 1 + src.upto(if cx.miri || lim.large > 0 { 11 } else { 23 + 40 * cx.scale as usize });
    let mut p: Pool<E> = (0..SLOTS).map(|_| Default::default()).collect();
    let mut ms: Models = (0..SLOTS).map(|_| Model::empty()).collect();
    // most histories start from filled slots
    for s in 0..SLOTS {
        if src.chance(3, 4) {
            let md = draw_any_model::<E>(src, lim.ext, lim.large, 100 * (s as u64 + 1));
            p[s] = build(src, &md);
            cx.note(|| format!("slot {s} = {}", md.show()));
            ms[s] = md;
        }
    }
    verify(&p, &ms, &|| "initial matrices".into())?;
    let mut effective = 0;
    for i in 0..steps {
        let op = draw(src, &ms, lim, 1000 * (i as u64 + 1));
        cx.note(|| format!("{op:?}"));
        let before = ms.clone();
        let want = step::<E>(&op, &mut ms);
        let got = exec(&op, &mut p);
        ensure!(got == want, "step {i} {op:?}: observed {got:?}, should observe {want:?}");
        verify(&p, &ms, &|| format!("after step {i} {op:?}"))?;
        if before.iter().zip(&ms).any(|(x, y)| (x.nr, x.nc, x.order) != (y.nr, y.nc, y.order)) {
            effective += 1;
        }
    }
    cx.evals = steps as u64;
    cx.nontrivial = effective >= 3;
    cx.label_if(lim.par, "history may use rayon");
    cx.label_if(lim.large > 0, "large shapes");
    drop(p);
    if E::TRACKED {
        ensure!(ledger::live() == 0, "{} elements were never dropped", ledger::live());
    }
    ledger::check()
}

fn main() {
    main_entry(&[
        Suite { name: "tracked8", f: history::<Tr8> },
        Suite { name: "tracked24", f: history::<Tr24> },
        Suite { name: "zst-align8", f: history::<TrZ8> },
        Suite { name: "tracked-wide", f: history::<TrWide> },
        Suite { name: "u8", f: history::<W8> },
        Suite { name: "box", f: history::<Bx> },
        Suite { name: "unit", f: history::<Z> },
    ])
}
