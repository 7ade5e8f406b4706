//! C17: mutable row/column iterators cross threads only when that is sound, and never race.
//! Part one generates client programs and lets the type checker decide; part two really mutates
//! rows and columns on several threads.
use matreex::Matrix;
use mxv::engine::guard;
use mxv::*;
use rayon::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

// ------------------------------------------------------------------ generated programs

/// Types named by the programs. Send and Sync vary independently.
const PRELUDE: &str = r#"#![allow(warnings)]
use matreex::Matrix;
use matreex::parallel::*;
use std::any::Any;
use std::cell::{Cell, OnceCell, RefCell, UnsafeCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::marker::PhantomData;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::atomic::AtomicU32;
use std::sync::{Arc, Mutex, MutexGuard, OnceLock, RwLock, RwLockReadGuard, mpsc};
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Neither(*mut u8);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SendOnly(*mut u8);
unsafe impl Send for SendOnly {}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SyncOnly(*mut u8);
unsafe impl Sync for SyncOnly {}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Both(*mut u8);
unsafe impl Send for Both {}
unsafe impl Sync for Both {}
pub struct Wrap<A>(A);
pub struct Swapped<A>(*mut u8, PhantomData<A>);
unsafe impl<A: Sync> Send for Swapped<A> {}
unsafe impl<A: Send> Sync for Swapped<A> {}
#[derive(Default, Clone, Debug)]
pub struct Zero(PhantomData<*mut u8>);
fn send<X: Send>(_: X) {}
fn sync<X: Sync>(_: &X) {}
fn tsend<X: Send>() {}
fn tsync<X: Sync>() {}
"#;

const LEAVES: [&str; 26] = [
    "u32",
    "Rc<u32>",
    "SendOnly",
    "SyncOnly",
    "Neither",
    "Both",
    "Cell<u32>",
    "String",
    "MutexGuard<'static, u32>",
    "*const u8",
    "RefCell<String>",
    "Zero",
    "NonNull<u8>",
    "RwLockReadGuard<'static, u32>",
    "mpsc::Receiver<u32>",
    "mpsc::Sender<u32>",
    "fn(Rc<u32>) -> Cell<u32>",
    "AtomicU32",
    "()",
    "f64",
    "Box<dyn Fn()>",
    "Box<dyn Fn() + Send>",
    "Box<dyn Any + Sync>",
    "Box<dyn Any + Send + Sync>",
    "&'static str",
    "UnsafeCell<u8>",
];
const CTORS: [&str; 24] = [
    "Box<@>",
    "Vec<@>",
    "Option<@>",
    "(@, u8)",
    "[@; 2]",
    "&'static @",
    "&'static mut @",
    "Cell<@>",
    "RefCell<@>",
    "Mutex<@>",
    "RwLock<@>",
    "Arc<@>",
    "Rc<@>",
    "PhantomData<@>",
    "OnceLock<@>",
    "OnceCell<@>",
    "Wrap<@>",
    "Swapped<@>",
    "Matrix<@>",
    "VecDeque<@>",
    "Result<u8, @>",
    "*mut @",
    "HashMap<u8, @>",
    "[@; 0]",
];
const BOUNDS: [&str; 14] = [
    "Sync", "Send", "Copy", "Clone", "'static", "Default", "std::fmt::Debug", "PartialEq", "Unpin", "Ord", "Any", "std::hash::Hash", "From<u8>",
    "std::panic::RefUnwindSafe",
];

fn draw_type(src: &mut Src, depth: usize) -> String {
    if depth > 0 && src.chance(2, 3) {
        let c = *src.pick(&CTORS);
        let t = draw_type(src, depth - 1);
        return c.replace('@', &t);
    }
    src.pick(&LEAVES).to_string()
}

const ITS: [&str; 8] = [
    "m.iter_rows_mut()",
    "m.iter_cols_mut()",
    "m.iter_rows_mut().next().unwrap()",
    "m.iter_cols_mut().next().unwrap()",
    "m.iter_rows_mut().next_back().unwrap()",
    "m.iter_cols_mut().next_back().unwrap()",
    "m.iter_rows_mut().nth(1).unwrap()",
    "m.iter_cols_mut().last().unwrap()",
];
const SENDS: [&str; 13] = [
    "send(@);",
    "let x = @; std::thread::scope(|s| { s.spawn(move || { let _y = x; }); });",
    "let (tx, rx) = mpsc::channel(); std::thread::scope(|s| { s.spawn(move || for x in rx { drop(x) }); tx.send(@).unwrap(); drop(tx); });",
    "let x = Mutex::new(@); sync(&x);",
    "let x: Box<dyn Send + '_> = Box::new(@);",
    "send(vec![@]);",
    "send(@.enumerate());",
    "send(@.rev().skip(1));",
    "send((1u8, Some(@)));",
    "send(@.peekable());",
    "let mut x = @; std::thread::scope(|s| { s.spawn(|| { x.next_back(); }); });",
    "@.par_bridge().for_each(|x| drop(x));",
    "std::thread::scope(|s| for x in @ { s.spawn(move || drop(x)); });",
];
const SYNCS: [&str; 6] = [
    "sync(&@);",
    "let x = @; std::thread::scope(|s| { s.spawn(|| x.len()); s.spawn(|| x.size_hint()); });",
    "let x: Box<dyn Sync + '_> = Box::new(@);",
    "let x = Arc::new(@); let y = x.clone(); std::thread::scope(|s| { s.spawn(move || y.len()); x.len(); });",
    "let x = RwLock::new(@); sync(&x);",
    "let x = @; let y = &x; send(y);",
];

/// One program: `head` declares the function's generics and the element type `ty`.
struct Probe {
    generics: String,
    ty: String,
    body: String,
    sync: bool,
}

fn draw_probe(src: &mut Src) -> Probe {
    let (generics, ty) = if src.chance(1, 4) {
        let n = src.idx(4);
        let mut b: Vec<&str> = (0..n).map(|_| *src.pick(&BOUNDS)).collect();
        b.sort();
        b.dedup();
        let ty = match src.idx(4) {
            0 => src.pick(&CTORS).replace('@', "T"),
            _ => "T".into(),
        };
        // reference types and some containers need more than T
        let ty = if ty.contains("'static") { "T".into() } else { ty };
        (format!("<T{}{}>", if b.is_empty() { "" } else { ": " }, b.join(" + ")), ty)
    } else {
        (String::new(), draw_type(src, 3))
    };
    let sync = src.flip();
    let form = if sync { *src.pick(&SYNCS) } else { *src.pick(&SENDS) };
    Probe { generics, ty, body: form.replace('@', *src.pick(&ITS)), sync }
}

fn scratch() -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("mxv-c17-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&d).expect("harness: scratch directory");
    d
}

fn newest(dir: &Path, prefix: &str) -> Option<PathBuf> {
    let mut best = None;
    for e in std::fs::read_dir(dir).ok()?.flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        if name.starts_with(prefix) && name.ends_with(".rlib") {
            let t = e.metadata().and_then(|m| m.modified()).ok()?;
            if best.as_ref().is_none_or(|(b, _)| *b < t) {
                best = Some((t, e.path()));
            }
        }
    }
    best.map(|b| b.1)
}

/// Type-checks a program against the crate this binary was built with: line -> error codes.
fn rustc(text: &str) -> BTreeMap<usize, Vec<String>> {
    let exe = std::env::current_exe().expect("harness: current_exe");
    let deps = exe.parent().unwrap().join("deps");
    let rlib = newest(&deps, "libmatreex-").expect("harness: no library to compile against");
    let dir = scratch();
    let file = dir.join("probe.rs");
    std::fs::write(&file, text).expect("harness: write");
    let out = Command::new("rustc")
        .args(["--edition=2024", "--crate-type=lib", "--emit=metadata", "--error-format=json", "-Awarnings"])
        .arg("--extern")
        .arg(format!("matreex={}", rlib.display()))
        .arg("-L")
        .arg(format!("dependency={}", deps.display()))
        .arg("-o")
        .arg(dir.join("probe.rmeta"))
        .arg(&file)
        .output()
        .expect("harness: rustc");
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let _ = std::fs::remove_file(dir.join("probe.rmeta"));
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_dir(&dir);
    let mut res: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for l in err.lines().filter(|l| l.starts_with('{') && l.contains("\"level\":\"error\"")) {
        let code = l.split("\"code\":{\"code\":\"").nth(1).and_then(|s| s.split('"').next()).unwrap_or("none").to_string();
        // primary spans of the diagnostic itself come before its children
        let own = l.split("\"children\":").next().unwrap_or("");
        for span in own.split("\"file_name\":").skip(1) {
            if span.contains("\"is_primary\":true") && span.contains("probe.rs\"") {
                if let Some(n) = span.split("\"line_start\":").nth(1).and_then(|s| s.split(',').next()).and_then(|s| s.parse().ok()) {
                    res.entry(n).or_default().push(code.clone());
                }
            }
        }
    }
    if !out.status.success() && res.is_empty() {
        panic!("harness: rustc failed without a usable diagnostic: {err:.2000}");
    }
    res
}

/// A batch of programs; each may be accepted only if the element type itself is Send (Sync).
fn programs(src: &mut Src, cx: &mut Cx) -> R {
    let n = 1 + src.upto(31);
    let probes: Vec<Probe> = (0..n).map(|_| draw_probe(src)).collect();
    let mut text = String::from(PRELUDE);
    let first = PRELUDE.lines().count() + 1;
    for (k, p) in probes.iter().enumerate() {
        let Probe { generics: g, ty, body, .. } = p;
        writeln!(text, "fn p{k}{g}(m: &mut Matrix<{ty}>) {{ {body} }}").unwrap();
        writeln!(text, "fn t{k}{g}() {{ {}::<{ty}>() }}", if p.sync { "tsync" } else { "tsend" }).unwrap();
    }
    let errors = rustc(&text);
    if errors.keys().any(|&l| l < first) {
        panic!("harness: the prelude does not compile: {errors:?}");
    }
    cx.evals = n as u64;
    for (k, p) in probes.iter().enumerate() {
        let (accepted, legal) = (errors.get(&(first + 2 * k)), errors.get(&(first + 2 * k + 1)));
        let show = || format!("fn client{}(m: &mut Matrix<{}>) {{ {} }}", p.generics, p.ty, p.body);
        cx.note(show);
        // only the verdict "this element type is not Send/Sync" counts as such
        let clean = |e: Option<&Vec<String>>| e.is_none_or(|v| v.iter().all(|c| c == "E0277"));
        if !clean(legal) {
            cx.label("type not usable");
            continue;
        }
        match (accepted, legal) {
            (None, None) => cx.label("accepted, type allows it"),
            (Some(e), None) => cx.label(if clean(Some(e)) { "rejected, type would allow it" } else { "rejected for another reason" }),
            (Some(e), Some(_)) => {
                cx.nontrivial = true;
                cx.keys.push(mix(4, k as u64, p.body.len() as u64 ^ (p.ty.len() as u64) << 32));
                cx.label(if clean(Some(e)) { "rejected, type forbids it" } else { "rejected for another reason" });
            }
            (None, Some(_)) => {
                let b = if p.sync { "Sync" } else { "Send" };
                return Err(format!("the compiler accepts `{}` although {} is not {b}", show(), p.ty));
            }
        }
    }
    Ok(())
}

/// Programs in which an element would become reachable twice whatever its type is.
const CONFLICTS: [(&str, &str); 12] = [
    // (the program, the same program without the conflict)
    ("let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); m.clear(); });", "let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); });"),
    ("let x = @; let y = @; std::thread::scope(|s| { s.spawn(move || drop(x)); s.spawn(move || drop(y)); });", "let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); });"),
    ("let x = @; let y = m.iter_elements_mut(); std::thread::scope(|s| { s.spawn(move || drop(x)); drop(y); });", "let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); });"),
    ("let x = @; let y = m.get((0, 0)); std::thread::scope(|s| { s.spawn(move || drop(x)); drop(y); });", "let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); });"),
    ("let x = @; std::thread::spawn(move || drop(x));", "let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); });"),
    ("let x = @; let y = x.clone(); std::thread::scope(|s| { s.spawn(move || drop(x)); drop(y); });", "let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); });"),
    ("let x = @; let y = x; std::thread::scope(|s| { s.spawn(move || drop(x)); drop(y); });", "let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); });"),
    ("let x = @; std::thread::scope(|s| { s.spawn(|| x.next()); s.spawn(|| x.next()); });", "let mut x = @; std::thread::scope(|s| { s.spawn(|| drop(x.next())); });"),
    ("let mut x = @; std::thread::scope(|s| { s.spawn(|| drop(x.next())); s.spawn(|| drop(x.next_back())); });", "let mut x = @; std::thread::scope(|s| { s.spawn(|| drop(x.next())); });"),
    ("let mut x = @; let y = x.next(); std::thread::scope(|s| { s.spawn(move || drop(y)); m.transpose(); });", "let mut x = @; let y = x.next(); std::thread::scope(|s| { s.spawn(move || drop(y)); });"),
    ("let mut o = Matrix::<u32>::new(); let x = { let m = &mut o; @ }; std::thread::scope(|s| { s.spawn(move || drop(x)); o.clear(); });", "let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); });"),
    ("let x = { let mut own = Matrix::<u32>::new(); let m = &mut own; @ }; std::thread::scope(|s| { s.spawn(move || drop(x)); });", "let x = @; std::thread::scope(|s| { s.spawn(move || drop(x)); });"),
];

fn conflicts(src: &mut Src, cx: &mut Cx) -> R {
    let (bad, good) = *src.pick(&CONFLICTS);
    let it = *src.pick(&ITS);
    let line = |body: &str| format!("{PRELUDE}fn client(m: &mut Matrix<u32>) {{ {} }}\n", body.replace('@', it));
    cx.note(|| bad.replace('@', it));
    if !rustc(&line(good)).is_empty() {
        cx.label("not applicable");
        return Ok(());
    }
    cx.nontrivial = true;
    let e = rustc(&line(bad));
    ensure!(!e.is_empty(), "the compiler accepts `fn client(m: &mut Matrix<u32>) {{ {} }}`", bad.replace('@', it));
    Ok(())
}

// ------------------------------------------------------------------ threads

/// Moves anything; whether the iterators may be moved is decided by the programs above.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(self) -> T {
        self.0
    }
}
impl<I: Iterator> Iterator for Force<I> {
    type Item = Force<I::Item>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(Force)
    }
}

/// What one thread does with one vector.
#[derive(Clone, Copy, Debug)]
struct Job {
    thread: usize,
    /// 0 front, 1 back, 2 nth(1)
    take: usize,
    /// elements consumed before the vector is handed over
    before: usize,
    how: usize,
}

#[derive(Clone, Debug)]
struct Plan {
    rows: bool,
    jobs: Vec<Job>,
    threads: usize,
    /// the thread that gets the rest of the outer iterator
    rest: Option<usize>,
}

fn draw_plan(src: &mut Src, n: usize, cx: &Cx) -> Plan {
    let threads = 1 + src.idx(if cx.miri { 3 } else { 8 });
    let k = src.upto(n);
    let jobs = (0..k).map(|_| Job { thread: src.idx(threads), take: src.idx(3), before: src.idx(3), how: src.idx(5) }).collect();
    Plan { rows: src.flip(), jobs, threads, rest: if src.flip() { Some(src.idx(threads)) } else { None } }
}

fn touch<E: Elem>(e: &mut E, tag: u64, seen: &mut Vec<usize>) {
    seen.push(e as *mut E as usize);
    e.set(E::norm(mix(9, e.val(), tag)));
}

fn work<'a, E: Elem, I>(mut it: I, how: usize, tag: u64, seen: &mut Vec<usize>)
where
    I: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator,
{
    match how {
        0 => it.for_each(|e| touch(e, tag, seen)),
        1 => it.rev().for_each(|e| touch(e, tag, seen)),
        2 => {
            while let Some(e) = it.next_back() {
                touch(e, tag, seen);
                if let Some(e) = it.next() {
                    touch(e, tag, seen);
                }
            }
        }
        3 => {
            // all references alive at once
            let v: Vec<&mut E> = it.collect();
            v.into_iter().for_each(|e| touch(e, tag, seen));
        }
        _ => {
            if let Some(e) = it.nth(1) {
                touch(e, tag, seen);
            }
            it.for_each(|e| touch(e, tag, seen));
        }
    }
}

/// Carries the plan out; returns the addresses each thread touched (the main thread is last).
fn carry<'a, E: Elem, O, I>(mut outer: O, plan: &Plan, concurrent: bool) -> Vec<Vec<usize>>
where
    O: Iterator<Item = I> + DoubleEndedIterator + ExactSizeIterator,
    I: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator,
{
    let mut main = vec![];
    let mut piles: Vec<Vec<(usize, Job, I)>> = (0..plan.threads).map(|_| vec![]).collect();
    for (k, &j) in plan.jobs.iter().enumerate() {
        let v = match j.take {
            0 => outer.next(),
            1 => outer.next_back(),
            _ => outer.nth(1),
        };
        let Some(mut v) = v else { break };
        for _ in 0..j.before {
            if let Some(e) = v.next() {
                touch(e, 77, &mut main);
            }
        }
        piles[j.thread].push((k, j, v));
    }
    let mut rest = Some(outer);
    let run = |t: usize, pile: Vec<(usize, Job, I)>, rest: Option<O>| {
        let mut seen = vec![];
        for (k, j, v) in pile {
            work(v, j.how, k as u64, &mut seen);
        }
        for v in rest.into_iter().flatten() {
            work(v, 0, 1000 + t as u64, &mut seen);
        }
        seen
    };
    let mut all: Vec<Vec<usize>> = if concurrent {
        let start = Barrier::new(plan.threads);
        let (start, run) = (&start, Force(&run));
        std::thread::scope(|s| {
            let hs: Vec<_> = piles
                .into_iter()
                .enumerate()
                .map(|(t, pile)| {
                    let mine = Force((pile, if plan.rest == Some(t) { rest.take() } else { None }));
                    let run = Force(run.0);
                    s.spawn(move || {
                        let (pile, rest) = mine.get();
                        start.wait();
                        run.get()(t, pile, rest)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("a thread panicked")).collect()
        })
    } else {
        piles
            .into_iter()
            .enumerate()
            .map(|(t, pile)| run(t, pile, if plan.rest == Some(t) { rest.take() } else { None }))
            .collect()
    };
    all.push(main);
    all
}

fn both<E: Elem>(m: &mut Matrix<E>, plan: &Plan, concurrent: bool) -> Result<Vec<Vec<usize>>, String> {
    guard(|| {
        if plan.rows { carry(m.iter_rows_mut(), plan, concurrent) } else { carry(m.iter_cols_mut(), plan, concurrent) }
    })
}

fn judge<E: Elem>(m: &Matrix<E>, twin: &Matrix<E>, owners: &[Vec<usize>], seq: usize, what: &str) -> R {
    let mut owner: HashMap<usize, usize> = HashMap::new();
    let mut total = 0;
    for (t, v) in owners.iter().enumerate() {
        total += v.len();
        if E::ZST {
            continue;
        }
        for &a in v {
            // what the main thread touched before handing the vector over is no conflict
            if t + 1 < owners.len() {
                if let Some(o) = owner.insert(a, t) {
                    ensure!(o == t, "{what}: the element at {a:#x} is reached from threads {o} and {t}");
                }
            } else {
                ensure!(!owner.contains_key(&a), "{what}: an element the main thread had is reached again from thread {}", owner[&a]);
            }
        }
    }
    ensure!(total == seq, "{what}: {total} mutations, but sequentially {seq}");
    let (a, b) = (observe_mem(m), observe_mem(twin));
    ensure!(a == b, "{what}: the final matrix is {:?}, sequentially {:?}", a.map(|m| m.show_full()), b.map(|m| m.show_full()));
    ledger::check().map_err(|e| format!("{what}: {e}"))
}

fn threads<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let md = draw_model::<E>(src, if cx.miri { 5 } else { 9 + 12 * cx.scale as usize }, 1);
    let path = src.idx(PATHS);
    let (mut m, _) = made!(cx, obtain::<E>(&md, path));
    let (mut twin, _) = made!(cx, obtain::<E>(&md, path));
    let plan = draw_plan(src, md.nr.max(md.nc) + 1, cx);
    let what = format!("{} {plan:?}", md.show());
    cx.note(|| what.clone());
    let Ok(seq) = both(&mut twin, &plan, false) else {
        cx.label("panics sequentially");
        return Ok(());
    };
    let owners = both(&mut m, &plan, true).map_err(|e| format!("{what}: panic: {e}"))?;
    let active = owners.iter().filter(|v| !v.is_empty()).count();
    cx.nontrivial = active > 1;
    cx.label(match active {
        0 => "no thread mutates",
        1 => "1 thread mutates",
        2..=3 => "2-3 threads mutate",
        _ => "more than 3 threads mutate",
    });
    cx.label_if(plan.threads > if plan.rows { md.nr } else { md.nc }, "more threads than vectors");
    judge(&m, &twin, &owners, seq.iter().map(|v| v.len()).sum(), &what)
}

/// The vectors of a larger matrix, distributed by rayon.
fn bridged<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let ext = if cx.miri { 5 } else { 60 };
    let (nr, nc) = if !cx.miri && src.chance(1, 4) { draw_large(src) } else { (src.range(1, ext), src.range(1, ext)) };
    let md = Model::new(draw_order(src), nr, nc, distinct::<E>(nr * nc, 1));
    let (mut m, _) = made!(cx, obtain::<E>(&md, 0));
    let (mut twin, _) = made!(cx, obtain::<E>(&md, 0));
    let rows = src.flip();
    let back = src.flip();
    let what = format!("{} rows: {rows} reversed: {back}, by rayon", md.show());
    cx.note(|| what.clone());
    fn go<'a, E: Elem, I, O>(it: O, back: bool, par: bool) -> Vec<Vec<usize>>
    where
        I: ExactSizeIterator<Item = &'a mut E> + DoubleEndedIterator,
        O: Iterator<Item = I> + DoubleEndedIterator + ExactSizeIterator,
    {
        let n = rayon::current_num_threads() + 1;
        let seen: Vec<Mutex<Vec<usize>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
        let f = |(k, v): (usize, I)| {
            let mut mine = vec![];
            work(v, k % 5, k as u64, &mut mine);
            let t = rayon::current_thread_index().unwrap_or(n - 1);
            seen[t].lock().unwrap().extend(mine);
        };
        let f = Force(f);
        let f = &f;
        match (par, back) {
            (true, false) => Force(it.enumerate()).par_bridge().for_each(move |x| (f.0)(x.get())),
            (true, true) => Force(it.enumerate().rev()).par_bridge().for_each(move |x| (f.0)(x.get())),
            (false, false) => it.enumerate().for_each(|x| (f.0)(x)),
            (false, true) => it.enumerate().rev().for_each(|x| (f.0)(x)),
        }
        let mut v: Vec<Vec<usize>> = seen.into_iter().map(|m| m.into_inner().unwrap()).collect();
        v.push(vec![]);
        v
    }
    let run = |m: &mut Matrix<E>, par: bool| {
        guard(|| if rows { go(m.iter_rows_mut(), back, par) } else { go(m.iter_cols_mut(), back, par) })
    };
    let Ok(seq) = run(&mut twin, false) else {
        cx.label("panics sequentially");
        return Ok(());
    };
    let owners = run(&mut m, true).map_err(|e| format!("{what}: panic: {e}"))?;
    cx.nontrivial = owners.iter().filter(|v| !v.is_empty()).count() > 1;
    judge(&m, &twin, &owners, seq.iter().map(|v| v.len()).sum(), &what)
}

fn main() {
    main_entry(&[
        Suite { name: "programs", f: programs },
        Suite { name: "conflicts", f: conflicts },
        Suite { name: "threads-u64", f: threads::<W64> },
        Suite { name: "threads-u8", f: threads::<W8> },
        Suite { name: "threads-3xu64", f: threads::<W24> },
        Suite { name: "threads-string", f: threads::<St> },
        Suite { name: "threads-tracked8", f: threads::<Tr8> },
        Suite { name: "threads-tracked-zst", f: threads::<TrZ8> },
        Suite { name: "bridged-u64", f: bridged::<W64> },
        Suite { name: "bridged-box", f: bridged::<Bx> },
    ])
}
