//! C02: a panic of caller-supplied code at every fault point of every operation.
use mxv::engine::guard;
use mxv::ledger::{self, FAULT_MSG};
use mxv::ops::*;
use mxv::*;
use std::collections::HashSet;

/// Every reachable matrix is coherent and nothing in the ledger is wrong. Returns the models.
fn survey<E: Elem>(p: &Pool<E>, what: &str) -> Result<Models, String> {
    let mut ms = vec![];
    let mut seen = HashSet::new();
    for (s, m) in p.iter().enumerate() {
        ms.push(coherent(m).map_err(|e| format!("{what}: slot {s}: {e}"))?);
        if E::TRACKED && !E::ZST {
            for id in ids(m) {
                ensure!(seen.insert(id), "{what}: element #{id} is stored at two positions");
            }
        }
    }
    if E::TRACKED {
        let total: usize = ms.iter().map(|m| m.size()).sum();
        ensure!(ledger::live() >= total as i64, "{what}: matrices hold {total} elements but only {} are alive", ledger::live());
    }
    ledger::check().map_err(|e| format!("{what}: {e}"))?;
    Ok(ms)
}

fn survey_contents<E: Elem>(p: &Pool<E>) -> Result<Models, String> {
    p.iter().map(|m| coherent(m)).collect()
}

fn show(ms: &Models) -> String {
    ms.iter().map(|m| m.show_full()).collect::<Vec<_>>().join(" / ")
}

fn fault<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let lim = Lim { ext: 3 + cx.scale as usize, par: !cx.miri && src.chance(1, 10), elem: size_of::<E>(), large: if !cx.miri && src.chance(1, 80) { 2 } else { 0 } };
    let models: Models = (0..SLOTS).map(|s| draw_any_model::<E>(src, lim.ext, lim.large, 100 * (s as u64 + 1))).collect();
    let mut models = models;
    // operands of elementwise operations and products should often fit
    if src.chance(1, 2) {
        let m = models[0].clone();
        models[1] = if src.flip() { m.with_order(other(m.order)) } else { m.clone() };
        if src.flip() {
            models[2] = m.transposed().with_order(draw_order(src));
        }
    }
    let paths: Vec<usize> = (0..SLOTS).map(|_| src.idx(PATHS)).collect();
    let op = draw(src, &models, lim, 5000);
    let make = || -> Pool<E> { models.iter().zip(&paths).map(|(m, &p)| build_path(m, p)).collect() };
    cx.note(|| format!("slots {}", models.iter().map(|m| m.show()).collect::<Vec<_>>().join(", ")));

    // number of fault points
    let mut p = make();
    ledger::arm(None);
    let r = guard(|| exec(&op, &mut p));
    let (points, _) = ledger::disarm();
    // what the operation computes is the business of other properties
    if r.is_err() || survey(&p, "").is_err() {
        cx.label("operation fails without a fault");
        return Ok(());
    }
    drop(p);
    cx.note(|| format!("{op:?}: {points} fault points"));

    let limit = if cx.miri || lim.large > 0 { 6 } else { 48 };
    // all of them, or one out of each of `limit` equal stretches
    let ks: Vec<u64> = if points <= limit {
        (0..points).collect()
    } else {
        (0..limit).map(|i| (points * i / limit, points * (i + 1) / limit)).map(|(a, b)| a + src.below(b - a)).collect()
    };
    cx.evals = 0;
    cx.label_if(lim.large > 0, "large shapes");
    for k in ks {
        ledger::reset();
        let mut p = make();
        ledger::arm(Some(k));
        let r = guard(|| exec(&op, &mut p));
        let (_, fired) = ledger::disarm();
        cx.evals += 1;
        let kind = ledger::fired_kind();
        let what = format!("{op:?} with a panic in {kind} (fault point {k})");
        if fired {
            cx.label(kind);
            cx.nontrivial = true;
            cx.keys.push(k);
            cx.label_if(!matches!(&r, Err(m) if m == FAULT_MSG), "panic did not reach the caller");
        }
        let mut ms = survey(&p, &what)?;
        // the survivors go on working: each does what an equal matrix made from scratch does
        for i in 0..(if cx.miri { 2 } else { 3 }) {
            let f = draw(src, &ms, Lim { par: false, ..lim }, 7000 + 100 * i);
            let mut q: Pool<E> = ms.iter().map(|m| build_path(m, 0)).collect();
            let want = guard(|| exec(&f, &mut q));
            let Ok(want_ms) = survey_contents(&q) else { break };
            drop(q);
            if ledger::check().is_err() {
                break;
            }
            let got = guard(|| exec(&f, &mut p));
            ensure!(got == want, "{what}, then {f:?}: observed {got:?}, but {want:?} on equal fresh matrices");
            let got_ms = survey(&p, &format!("{what}, then {f:?}"))?;
            ensure!(got_ms == want_ms, "{what}, then {f:?}: got {}, but {} from equal fresh matrices", show(&got_ms), show(&want_ms));
            ms = got_ms;
        }
        drop(p);
        ledger::check().map_err(|e| format!("{what}, then dropping everything: {e}"))?;
    }
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "tracked8", f: fault::<Tr8> },
        Suite { name: "tracked16", f: fault::<Tr16> },
        Suite { name: "tracked-wide", f: fault::<TrWide> },
        Suite { name: "zst", f: fault::<TrZ1> },
        Suite { name: "string", f: fault::<St> },
    ])
}
