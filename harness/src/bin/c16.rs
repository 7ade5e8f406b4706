//! C16: the parallel helpers equal their sequential counterparts on every schedule.
use matreex::parallel::*;
use matreex::{Error, Index, Matrix};
use mxv::child::*;
use mxv::engine::guard;
use mxv::ops::history;
use mxv::*;
use rayon::{ThreadPool, ThreadPoolBuilder};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[global_allocator]
static GLOBAL: Guarded = Guarded;

fn pool(n: usize) -> Arc<ThreadPool> {
    static POOLS: Mutex<Option<HashMap<usize, Arc<ThreadPool>>>> = Mutex::new(None);
    let mut g = POOLS.lock().unwrap_or_else(|e| e.into_inner());
    g.get_or_insert_default()
        .entry(n)
        .or_insert_with(|| Arc::new(ThreadPoolBuilder::new().num_threads(n).build().expect("harness: pool")))
        .clone()
}

/// How one run is scheduled: pool size, where the call is made from, which elements take how long.
#[derive(Clone, Copy, Debug)]
struct Sched {
    threads: usize,
    from: usize,
    seed: u64,
    /// one element in this many is slow (0: none)
    slow: u64,
    kind: usize,
}

fn draw_sched(src: &mut Src, cx: &Cx) -> Sched {
    let threads = if cx.miri { *src.pick(&[1, 2, 3]) } else { *src.pick(&[1, 2, 3, 4, 5, 7, 8, 8, 12, 16, 33, 64]) };
    let slow = *src.pick(&[0, 1, 2, 7, 50, 400]);
    Sched { threads, from: src.idx(4), seed: src.below(1 << 16), slow, kind: src.idx(4) }
}

/// What happened inside the closure.
struct Watch {
    s: Sched,
    n: usize,
    calls: Vec<AtomicU32>,
    total: AtomicU64,
    /// worker threads seen
    seen: AtomicU64,
}

impl Watch {
    fn new(s: Sched, n: usize) -> Self {
        Watch {
            s,
            n,
            calls: (0..n).map(|_| AtomicU32::new(0)).collect(),
            total: AtomicU64::new(0),
            seen: AtomicU64::new(0),
        }
    }
    /// the element with value `v` (the values are 1..=n unless they are not distinct)
    fn call(&self, v: u64) {
        self.total.fetch_add(1, SeqCst);
        if let Some(c) = self.calls.get((v as usize).wrapping_sub(1)) {
            c.fetch_add(1, SeqCst);
        }
        if let Some(t) = rayon::current_thread_index() {
            self.seen.fetch_or(1 << (t % 64), SeqCst);
        }
        let s = self.s;
        if s.slow > 0 {
            let h = mix(1, v, s.seed);
            if h % s.slow == 0 {
                match s.kind {
                    0 => std::thread::yield_now(),
                    1 => {
                        for _ in 0..(h >> 32) % (1 + 40_000 / self.n as u64).min(2000) {
                            std::hint::spin_loop();
                        }
                    }
                    2 if s.slow > 5 && !cfg!(miri) && self.n < 3000 => std::thread::sleep(std::time::Duration::from_micros(h >> 32 & 31)),
                    _ => {}
                }
            }
        }
    }
    fn judge(&self, distinct: bool) -> R {
        let t = self.total.load(SeqCst);
        ensure!(t == self.n as u64, "the closure was called {t} times for {} elements", self.n);
        if distinct {
            for (k, c) in self.calls.iter().enumerate() {
                let c = c.load(SeqCst);
                ensure!(c == 1, "the closure was called {c} times for element {}", k + 1);
            }
        }
        Ok(())
    }
    fn label(&self, cx: &mut Cx) {
        let k = self.seen.load(SeqCst).count_ones();
        cx.nontrivial = k > 1;
        cx.label(match k {
            0 => "no worker involved",
            1 => "1 worker",
            2 => "2 workers",
            3..=4 => "3-4 workers",
            5..=8 => "5-8 workers",
            _ => "more than 8 workers",
        });
    }
}

/// Makes the call as the schedule says.
fn within<T: Send>(s: Sched, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    let (mut f, mut out) = (Some(f), None);
    scheduled(s, &mut || out = f.take().map(|f| f()))?;
    Ok(out.unwrap())
}
fn scheduled(s: Sched, f: &mut (dyn FnMut() + Send)) -> Result<(), String> {
    let p = pool(s.threads);
    guard(|| match s.from {
        0 => p.install(f),
        // from inside a task, with other work competing
        1 => p.install(|| {
            rayon::join(|| busy(s), f);
        }),
        2 => p.install(|| {
            rayon::join(f, || busy(s));
        }),
        // with tasks spawned just before
        _ => p.install(|| {
            rayon::scope(|sc| {
                for _ in 0..3 {
                    sc.spawn(move |_| busy(s));
                }
                f()
            })
        }),
    })
}
fn busy(s: Sched) {
    let n = if cfg!(miri) { 4 } else { 64 };
    let x: u64 = (0..n).into_par_iter().map(|k: u64| mix(3, k, s.seed)).reduce(|| 0, |a, b| a ^ b);
    std::hint::black_box(x);
}

const NAMES: [&str; 9] = [
    "par_apply",
    "par_map",
    "par_map_ref",
    "par_iter_elements",
    "par_iter_elements_mut",
    "into_par_iter_elements",
    "par_iter_elements_with_index",
    "par_iter_elements_mut_with_index",
    "into_par_iter_elements_with_index",
];

/// (index, address or identity, value); index is absent in the plain variants
type Item = (Option<(usize, usize)>, usize, u64);

fn at(i: Index) -> Option<(usize, usize)> {
    Some((i.row, i.col))
}
fn addr<E: Elem>(e: &E) -> usize {
    if E::ZST { 0 } else { e as *const E as usize }
}

/// Consumes a parallel iterator of items in one of several ways.
fn consume<I: ParallelIterator<Item = Item>>(it: I, how: usize) -> Vec<Item> {
    match how {
        0 => it.collect(),
        1 => {
            let out = Mutex::new(vec![]);
            it.for_each(|x| out.lock().unwrap().push(x));
            out.into_inner().unwrap()
        }
        _ => it
            .fold(Vec::new, |mut v, x| {
                v.push(x);
                v
            })
            .reduce(Vec::new, |mut a, mut b| {
                a.append(&mut b);
                a
            }),
    }
}

/// Runs one helper and its sequential counterpart on equal matrices.
fn compare<E: Elem, F: Elem>(src: &mut Src, cx: &mut Cx, mut m: Matrix<E>, mut twin: Matrix<E>, distinct: bool) -> R {
    let s = draw_sched(src, cx);
    let op = src.idx(9);
    let how = src.idx(3);
    let Some(md) = observe_mem(&twin) else {
        cx.label("no matrix");
        return Ok(());
    };
    let n = md.size();
    let w = Watch::new(s, n);
    let what = || format!("{} of {} with {s:?}", NAMES[op], md.show());
    cx.note(what);
    cx.label(NAMES[op]);
    let f = |v: u64| E::norm(mix(7, v, 1));
    let g = |v: u64| F::norm(mix(8, v, 2));
    // what the sequential iterators of this very matrix say
    let id = |e: &E| if E::TRACKED && !E::ZST { e.id() as usize } else { 0 };
    let list = |m: &Matrix<E>, index: bool, owned: bool| -> Vec<Item> {
        m.iter_elements_with_index()
            .zip(m.iter_elements())
            .map(|((i, _), e)| (if index { at(i) } else { None }, if owned { id(e) } else { addr(e) }, e.val()))
            .collect()
    };
    let diff = |mut got: Vec<Item>, mut want: Vec<Item>| -> R {
        got.sort();
        want.sort();
        ensure!(got.len() == want.len(), "{} items instead of {}", got.len(), want.len());
        if let Some(k) = (0..got.len()).find(|&k| got[k] != want[k]) {
            return Err(format!("the multiset of items differs: (index, identity, value) {:?} instead of {:?}", got[k], want[k]));
        }
        Ok(())
    };
    let pan = |e: String| format!("{}: panic: {e}", what());
    let tell = |e: String| format!("{}: {e}", what());
    match op {
        0 => {
            within(s, || {
                m.par_apply(|e| {
                    w.call(e.val());
                    e.set(f(e.val()))
                });
            })
            .map_err(pan)?;
            twin.apply(|e| e.set(f(e.val())));
            w.judge(distinct).map_err(tell)?;
            equal(&m, &twin).map_err(tell)?;
        }
        1 | 2 => {
            let got = if op == 1 {
                within(s, || {
                    m.par_map(|e| {
                        let v = e.val();
                        w.call(v);
                        F::mk(g(v))
                    })
                })
            } else {
                let r = within(s, || {
                    m.par_map_ref(|e| {
                        let v = e.val();
                        w.call(v);
                        F::mk(g(v))
                    })
                });
                equal(&m, &twin).map_err(|e| format!("{}: the source: {e}", what()))?;
                r
            }
            .map_err(pan)?;
            let want = if op == 1 { twin.map(|e| F::mk(g(e.val()))) } else { twin.map_ref(|e| F::mk(g(e.val()))) };
            match (got, want) {
                (Ok(got), Ok(want)) => {
                    w.judge(distinct).map_err(tell)?;
                    equal(&got, &want).map_err(tell)?;
                }
                (Err(a), Err(b)) => ensure!(a == b, "{}: {a:?} instead of {b:?}", what()),
                (a, b) => return Err(format!("{}: {} instead of {}", what(), err_name(&a), err_name(&b))),
            }
        }
        _ => {
            let owned = op == 5 || op == 8;
            let want = list(&m, op > 5, owned);
            let mutate = op == 4 || op == 7;
            let see = |i: Option<Index>, e: &E| {
                w.call(e.val());
                (i.map(|i| (i.row, i.col)), addr(e), e.val())
            };
            let put = |i: Option<Index>, e: &mut E| {
                let r = see(i, e);
                e.set(f(e.val()));
                r
            };
            let own = |i: Option<Index>, e: E| {
                w.call(e.val());
                (i.map(|i| (i.row, i.col)), id(&e), e.val())
            };
            let got = match op {
                3 => within(s, || consume(m.par_iter_elements().map(|e| see(None, e)), how)),
                4 => within(s, || consume(m.par_iter_elements_mut().map(|e| put(None, e)), how)),
                5 => within(s, || consume(std::mem::replace(&mut m, Matrix::new()).into_par_iter_elements().map(|e| own(None, e)), how)),
                6 => within(s, || consume(m.par_iter_elements_with_index().map(|(i, e)| see(Some(i), e)), how)),
                7 => within(s, || consume(m.par_iter_elements_mut_with_index().map(|(i, e)| put(Some(i), e)), how)),
                _ => within(s, || {
                    consume(
                        std::mem::replace(&mut m, Matrix::new()).into_par_iter_elements_with_index().map(|(i, e)| own(Some(i), e)),
                        how,
                    )
                }),
            }
            .map_err(pan)?;
            diff(got, want).map_err(tell)?;
            w.judge(distinct).map_err(tell)?;
            if !owned {
                if mutate {
                    twin.iter_elements_mut().for_each(|e| e.set(f(e.val())));
                }
                equal(&m, &twin).map_err(|e| format!("{}: afterwards: {e}", what()))?;
            }
        }
    }
    w.label(cx);
    ledger::check().map_err(tell)
}

/// Same shape, order and contents.
fn equal<E: Elem>(a: &Matrix<E>, b: &Matrix<E>) -> R {
    ensure!(
        (a.nrows(), a.ncols(), a.order()) == (b.nrows(), b.ncols(), b.order()),
        "{}x{} {:?} but sequentially {}x{} {:?}",
        a.nrows(),
        a.ncols(),
        a.order(),
        b.nrows(),
        b.ncols(),
        b.order()
    );
    ensure!(a.iter_elements().len() == b.iter_elements().len(), "{} elements but sequentially {}", a.size(), b.size());
    for (k, (x, y)) in a.iter_elements().zip(b.iter_elements()).enumerate() {
        ensure!(x.val() == y.val(), "the element at {k} in memory order is {} but sequentially {}", x.val(), y.val());
    }
    Ok(())
}

fn build2<E: Elem>(src: &mut Src, md: &Model) -> Option<(Matrix<E>, Matrix<E>)> {
    let p = if md.size() > 3000 { 0 } else { src.idx(PATHS) };
    Some((obtain(md, p)?.0, obtain(md, p)?.0))
}

fn small<E: Elem, F: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let md = draw_any_model::<E>(src, if cx.miri { 4 } else { 12 }, 60, 1);
    let (m, twin) = made!(cx, build2::<E>(src, &md));
    compare::<E, F>(src, cx, m, twin, !E::ZST)
}

fn large<E: Elem, F: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let top = [200, 60_000][cx.scale.min(1) as usize];
    let a = src.range(1, top);
    let b = src.range(1, (12_000 / a).clamp(1, top));
    let (nr, nc) = if src.chance(1, 4) { draw_large(src) } else if src.flip() { (a, b) } else { (b, a) };
    let md = Model::new(draw_order(src), nr, nc, distinct::<E>(nr * nc, 1));
    let (m, twin) = made!(cx, build2::<E>(src, &md));
    compare::<E, F>(src, cx, m, twin, !E::ZST)
}

/// After a random history (values are not known to be distinct).
fn after_history<E: Elem, F: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (mut p, _) = made!(cx, history::<E>(src, 6, if cx.miri { 3 } else { 8 }, 60));
    let m = p.remove(0);
    let twin = made!(cx, guard(|| m.clone()).ok());
    if equal(&m, &twin).is_err() {
        cx.label("no matrix");
        return Ok(());
    }
    drop(p);
    compare::<E, F>(src, cx, m, twin, false)
}

/// The references handed out by par_map_ref may be kept: those of map_ref, position by position.
fn references(src: &mut Src, cx: &mut Cx) -> R {
    let md = draw_model::<W64>(src, if cx.miri { 4 } else { 40 }, 1);
    let (m, _) = made!(cx, obtain_any::<W64>(src, &md));
    let s = draw_sched(src, cx);
    let w = Watch::new(s, md.size());
    let what = || format!("par_map_ref of {} to references with {s:?}", md.show());
    cx.note(what);
    let got = within(s, || {
        m.par_map_ref(|e| {
            w.call(e.val());
            e
        })
    })
    .map_err(|e| format!("{}: panic: {e}", what()))?;
    let want = m.map_ref(|e| e);
    let (Ok(got), Ok(want)) = (got, want) else { return Err(format!("{} fails", what())) };
    ensure!((got.nrows(), got.ncols(), got.order()) == (want.nrows(), want.ncols(), want.order()), "{}: other shape", what());
    ensure!(
        got.iter_elements().map(|e| *e as *const W64).eq(want.iter_elements().map(|e| *e as *const W64)),
        "{}: other references than those of map_ref",
        what()
    );
    w.label(cx);
    Ok(())
}

// ------------------------------------------------------------------ failures

fn outcome<const N: usize>(r: Result<Matrix<[u8; N]>, Error>, nr: usize, nc: usize) -> i32 {
    match r {
        Err(e) => ops::code::<()>(Err(e)) as i32,
        Ok(m) if (m.nrows(), m.ncols()) == (nr, nc) => GOOD,
        Ok(_) => INCOHERENT,
    }
}

/// Element counts around isize::MAX bytes: par_map/par_map_ref fail exactly when map/map_ref do.
/// Every call is made in a forked child, which ends when it starts to allocate or to fill.
fn failures<const N: usize>(src: &mut Src, cx: &mut Cx) -> R {
    let cap = isize::MAX as usize / N.max(1);
    let n = match src.idx(6) {
        0 | 1 | 2 => cap.saturating_add(src.idx(5)).wrapping_sub(2),
        3 => usize::MAX - src.idx(3),
        4 => (src.u64() >> src.idx(64)) as usize,
        // byte counts which wrap around
        _ => ((1u128 << 64).div_ceil(N.max(1) as u128)).min(usize::MAX as u128) as usize,
    };
    let d = 1 + src.idx(6);
    let (nr, nc) = if n % d == 0 { (d, n / d) } else { (1, n) };
    let order = draw_order(src);
    let m = huge_zst::<Z>(nr, nc, order);
    let by_ref = src.flip();
    let what = || format!("{nr}x{nc} {order:?} zero-sized elements to {N} bytes (by reference: {by_ref})");
    cx.note(what);
    let mk = || {
        fill();
        [1u8; N]
    };
    let run = |m: Matrix<Z>, par: bool| {
        child(|| match (par, by_ref) {
            (false, false) => outcome(m.map(|_| mk()), nr, nc),
            (false, true) => outcome(m.map_ref(|_| mk()), nr, nc),
            (true, false) => outcome(m.par_map(|_| mk()), nr, nc),
            (true, true) => outcome(m.par_map_ref(|_| mk()), nr, nc),
        })
    };
    let seq = run(huge_zst::<Z>(nr, nc, order), false);
    let par = run(m, true);
    let fine = |c: i32| [GOOD, ALLOC, FILLING].contains(&c);
    cx.label(if fine(seq) { "no error" } else { "error" });
    cx.nontrivial = !fine(seq) || n > cap / 4;
    ensure!(
        seq == par || fine(seq) && fine(par),
        "{}: sequentially {}, in parallel {}",
        what(),
        code_name(seq),
        code_name(par)
    );
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "small-u64", f: small::<W64, W64> },
        Suite { name: "small-tracked8", f: small::<Tr8, Tr24> },
        Suite { name: "small-string", f: small::<St, W16> },
        Suite { name: "small-tracked-zst", f: small::<TrZ1, Tr4> },
        Suite { name: "small-3xu64", f: small::<W24, TrZ8> },
        Suite { name: "small-wide", f: small::<Wide, TrWide> },
        Suite { name: "history-u64", f: after_history::<W64, W64> },
        Suite { name: "history-tracked8", f: after_history::<Tr8, Tr24> },
        Suite { name: "large-u64", f: large::<W64, W64> },
        Suite { name: "large-string", f: large::<St, W16> },
        Suite { name: "large-tracked8", f: large::<Tr8, Tr24> },
        Suite { name: "references", f: references },
        Suite { name: "failures-0B", f: failures::<0> },
        Suite { name: "failures-1B", f: failures::<1> },
        Suite { name: "failures-8B", f: failures::<8> },
        Suite { name: "failures-24B", f: failures::<24> },
        Suite { name: "failures-4096B", f: failures::<4096> },
    ])
}
