//! Choice-sequence engine: a case is a pure function of the bounded integers it draws.
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

enum Mode {
    Rand(Rng),
    /// Values are taken from the list (clamped to the bound), zeros afterwards.
    Replay(Vec<u64>),
    /// Odometer: values are taken from the prefix, zeros afterwards.
    Exh(Vec<u64>),
    /// Values are taken from the list as far as they fit, random ones otherwise.
    Mix(Vec<u64>, Rng),
}

pub struct Src {
    mode: Mode,
    log: Vec<u64>,
    bounds: Vec<u64>,
    stream: Option<File>,
    exhausted: bool,
}

/// Numbers found in the code under test (MXV_DICT), as in the dictionaries of fuzzers: they only
/// bias what is drawn; a recorded case does not depend on them.
pub fn dict() -> &'static [u64] {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        if cfg!(miri) {
            return vec![];
        }
        let s = std::env::var("MXV_DICT").unwrap_or_default();
        s.split(',').filter_map(|x| x.parse().ok()).collect()
    })
}

impl Src {
    fn with(mode: Mode) -> Self {
        Src { mode, log: vec![], bounds: vec![], stream: None, exhausted: false }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Self::with(Mode::Replay(v))
    }
    pub fn random(seed: u64) -> Self {
        Self::with(Mode::Rand(Rng::new(seed)))
    }
    /// The basic draw: a value in `0..n`. `0` must be the simplest alternative.
    pub fn below(&mut self, n: u64) -> u64 {
        self.draw(n, 0, if n > 9 { dict() } else { &[] }, 24, true)
    }
    /// A value in `lo..=hi`, often one of the candidates. Candidates do not matter for a replay.
    pub fn hinted(&mut self, lo: usize, hi: usize, candidates: &[u64]) -> usize {
        lo + self.draw((hi - lo) as u64 + 1, lo as u64, candidates, 2, false) as usize
    }
    fn draw(&mut self, n: u64, lo: u64, hints: &[u64], den: u64, around: bool) -> u64 {
        if n <= 1 {
            return 0;
        }
        let pos = self.log.len();
        let listed = match &self.mode {
            Mode::Mix(l, _) => l.get(pos).copied().filter(|v| *v < n),
            _ => None,
        };
        let hint = match &mut self.mode {
            _ if listed.is_some() => listed,
            Mode::Rand(r) | Mode::Mix(_, r) if !hints.is_empty() => {
                let on = r.next() % den == 0;
                let v = hints[(r.next() % hints.len() as u64) as usize];
                let v = if around { v.wrapping_add(r.next() % 3).wrapping_sub(1) } else { v };
                v.checked_sub(lo).filter(|v| on && *v < n)
            }
            _ => None,
        };
        let v = match &mut self.mode {
            Mode::Rand(_) | Mode::Mix(..) if hint.is_some() => hint.unwrap(),
            Mode::Rand(r) | Mode::Mix(_, r) => {
                if n == u64::MAX {
                    r.next() % n
                } else {
                    // multiply-shift; bias is irrelevant here
                    ((r.next() as u128 * n as u128) >> 64) as u64
                }
            }
            Mode::Replay(l) => l.get(pos).copied().unwrap_or(0).min(n - 1),
            Mode::Exh(p) => {
                let v = p.get(pos).copied().unwrap_or(0);
                if v >= n {
                    self.exhausted = true;
                    n - 1
                } else {
                    v
                }
            }
        };
        self.log.push(v);
        self.bounds.push(n);
        if let Some(f) = &mut self.stream {
            let _ = f.write_all(format!("{v} ").as_bytes());
            let _ = f.flush();
        }
        v
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64 + 1) as usize
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        let n = (hi_incl - lo) as u64 + 1;
        lo + self.draw(n, lo as u64, if n > 9 { dict() } else { &[] }, 24, true) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den (false is the simple alternative)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den, 0, &[], 1, false) >= den - num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.idx(s.len())]
    }
    pub fn is_exhaustive(&self) -> bool {
        matches!(self.mode, Mode::Exh(_))
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
}

pub struct Cx {
    pub nontrivial: bool,
    pub describe: bool,
    pub desc: Vec<String>,
    pub labels: Vec<&'static str>,
    /// evaluations performed by this case (defaults to 1)
    pub evals: u64,
    pub scale: u64,
    pub miri: bool,
    /// extra structure that distinguishes evaluations inside one case
    pub keys: Vec<u64>,
    /// hash of what `dump` was given, if the run asks for it
    pub dumped: Option<u64>,
    pub dump_text: Option<String>,
    dumping: u8,
}

impl Cx {
    fn new(describe: bool, scale: u64) -> Self {
        Cx {
            nontrivial: false,
            describe,
            desc: vec![],
            labels: vec![],
            evals: 1,
            scale,
            miri: cfg!(miri),
            keys: vec![],
            dumped: None,
            dump_text: None,
            dumping: 0,
        }
    }
    /// Something that must not depend on the build configuration.
    pub fn dump(&mut self, f: impl FnOnce() -> String) {
        match self.dumping {
            1 => self.dumped = Some(strhash(&f())),
            2 => self.dump_text = Some(f()),
            _ => {}
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe && self.desc.len() < 400 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.desc.push(s);
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
}

pub struct Suite {
    pub name: &'static str,
    pub f: fn(&mut Src, &mut Cx) -> R,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static QUIET: AtomicBool = AtomicBool::new(true);

pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{msg} @ {loc}");
        if !QUIET.load(Ordering::Relaxed) {
            old(info);
        }
    }));
}

/// Runs `f`, returning its value or the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".into()
        }),
    }
}

fn run_case(s: &Suite, src: &mut Src, cx: &mut Cx) -> R {
    crate::ledger::reset();
    match catch_unwind(AssertUnwindSafe(|| (s.f)(src, cx))) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
    }
}

pub fn jstr(s: &str) -> String {
    jraw(&clip(s))
}

/// Very long messages (large matrices) are cut in the middle.
fn clip(s: &str) -> String {
    let n = s.chars().count();
    if n <= 3000 {
        return s.to_string();
    }
    let head: String = s.chars().take(1500).collect();
    let tail: String = s.chars().skip(n - 1500).collect();
    format!("{head} [... {} characters ...] {tail}", n - 3000)
}

fn jraw(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

fn mix64(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = (h ^ (h >> 33)).wrapping_mul(0xff51_afd7_ed55_8ccd);
    h ^ (h >> 29)
}

fn hash(init: u64, v: &[u64]) -> u64 {
    v.iter().fold(init, |h, &x| mix64(h, x))
}

fn strhash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

fn rand_src(seed: u64, suite: &str, index: u64) -> Src {
    Src::with(Mode::Rand(Rng::new(mix64(mix64(strhash(suite), seed), index))))
}

/// Edge counters of an instrumented build (SanitizerCoverage).
mod cov {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static START: AtomicUsize = AtomicUsize::new(0);
    static STOP: AtomicUsize = AtomicUsize::new(0);

    #[cfg(mxv_cov)]
    #[unsafe(no_mangle)]
    extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
        START.store(start as usize, Relaxed);
        STOP.store(stop as usize, Relaxed);
    }

    pub fn edges() -> usize {
        STOP.load(Relaxed) - START.load(Relaxed)
    }

    /// Calls `f` with every edge taken since the last call and the order of magnitude of how often.
    pub fn take(mut f: impl FnMut(usize, u8)) {
        let start = START.load(Relaxed) as *mut u8;
        for i in 0..edges() {
            // SAFETY: inside the section of counters; other threads write single bytes at most.
            let n = unsafe { start.add(i).read_volatile() };
            if n != 0 {
                // SAFETY: as above
                unsafe { start.add(i).write_volatile(0) };
                let class = match n {
                    1..=3 => n - 1,
                    4..=7 => 3,
                    8..=15 => 4,
                    16..=31 => 5,
                    32..=127 => 6,
                    _ => 7,
                };
                f(i, 1 << class);
            }
        }
    }
}

/// Coverage-guided generation: cases that reach something new are kept and mutated.
struct Corpus {
    /// choices and their bounds
    entries: Vec<(Vec<u64>, Vec<u64>)>,
    seen: Vec<u8>,
    hit: usize,
    rng: Rng,
}

impl Corpus {
    fn new(seed: u64) -> Self {
        Corpus { entries: vec![], seen: vec![0; cov::edges()], hit: 0, rng: Rng::new(seed) }
    }
    fn below(&mut self, n: usize) -> usize {
        (self.rng.next() % n.max(1) as u64) as usize
    }
    /// A list of choices to start from; empty for a fresh case.
    fn next(&mut self) -> Vec<u64> {
        if self.entries.is_empty() || self.below(5) == 0 {
            return vec![];
        }
        let n = self.entries.len();
        let i = if self.below(2) == 0 { n - 1 - self.below(1 + n / 4) } else { self.below(n) };
        let (mut v, mut b) = self.entries[i].clone();
        for _ in 0..1 + self.below(4) {
            if v.is_empty() {
                break;
            }
            let p = self.below(v.len());
            let k = (1 + self.below(6)).min(v.len() - p);
            let top = b[p] - 1;
            match self.below(10) {
                0..=2 => v[p] = self.rng.next() % b[p],
                3 => v[p] = if self.below(2) == 0 { v[p].saturating_sub(1) } else { (v[p] + 1).min(top) },
                4 => v[p] = [0, top, b[p] / 2, 1.min(top), top.saturating_sub(1)][self.below(5)],
                5 => {
                    // the value of another choice
                    let q = self.below(v.len());
                    v[p] = v[q].min(top);
                }
                6 => {
                    v.drain(p..p + k);
                    b.drain(p..p + k);
                }
                7 => {
                    let (vs, bs) = (v[p..p + k].to_vec(), b[p..p + k].to_vec());
                    v.splice(p..p, vs);
                    b.splice(p..p, bs);
                }
                8 => {
                    // the rest of another case
                    let j = self.below(n);
                    let (w, c) = &self.entries[j];
                    if p < w.len() {
                        v.truncate(p);
                        b.truncate(p);
                        v.extend_from_slice(&w[p..]);
                        b.extend_from_slice(&c[p..]);
                    }
                }
                _ => {
                    v.truncate(p);
                    b.truncate(p);
                }
            }
        }
        v
    }
    fn learn(&mut self, src: &Src, keep: bool) {
        let (mut new, seen, hit) = (false, &mut self.seen, &mut self.hit);
        cov::take(|i, class| {
            if seen[i] & class == 0 {
                *hit += (seen[i] == 0) as usize;
                seen[i] |= class;
                new = true;
            }
        });
        if new && keep && self.entries.len() < 4000 {
            self.entries.push((src.log.clone(), src.bounds.clone()));
        }
    }
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().unwrap_or_else(|_| panic!("bad {k}"))).unwrap_or(d)
    }
}

pub fn main_entry(suites: &[Suite]) -> ! {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_else(|| "list".into());
    let args = Args(
        it.map(|a| {
            let (k, v) = a.split_once('=').unwrap_or((&a, "1"));
            (k.to_string(), v.to_string())
        })
        .collect(),
    );
    let code = match cmd.as_str() {
        "list" => {
            for s in suites {
                println!("{}", s.name);
            }
            0
        }
        "run" => run(suites, &args),
        "one" => one(suites, &args),
        _ => {
            eprintln!("unknown command");
            2
        }
    };
    std::process::exit(code)
}

fn find<'a>(suites: &'a [Suite], args: &Args) -> &'a Suite {
    let name = args.get("suite").expect("suite=");
    suites.iter().find(|s| s.name == name).unwrap_or_else(|| {
        eprintln!("no suite {name}");
        std::process::exit(2)
    })
}

fn write_progress(f: &mut Option<File>, text: &str) {
    use std::io::{Seek, SeekFrom};
    if let Some(f) = f {
        let _ = f.seek(SeekFrom::Start(0));
        let _ = f.write_all(text.as_bytes());
        let _ = f.write_all(b"\n");
    }
}

fn run(suites: &[Suite], args: &Args) -> i32 {
    install_hook();
    let s = find(suites, args);
    let exh = args.get("mode") == Some("exh");
    let mut guided = (args.get("mode") == Some("guided")).then(|| {
        assert!(cov::edges() > 0, "the build is not instrumented");
        cov::take(|_, _| {});
        Corpus::new(mix64(mix64(strhash(s.name), args.num("seed", 1)), args.num("shard", 0)))
    });
    let (begin, limit) = (std::time::Instant::now(), args.num("secs", u64::MAX));
    let seed = args.num("seed", 1);
    let n = args.num("n", 100);
    let (shard, shards) = (args.num("shard", 0), args.num("shards", 1));
    let scale = args.num("scale", 0);
    let out = args.get("out").map(String::from);
    let mut progress = args.get("progress").map(|p| File::create(p).expect("progress file"));
    let nsamples = args.num("samples", 2);

    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut cases, mut evals, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut violation: Option<(String, Vec<u64>)> = None;
    let mut complete = false;
    let mut dump = args.get("dump").map(|p| std::io::BufWriter::new(File::create(p).expect("dump file")));
    let mut prefix: Vec<u64> = vec![shard];
    let mut index = shard;
    let mut next_sample = 0u64;
    loop {
        if cases >= n || guided.is_some() && begin.elapsed().as_secs() >= limit {
            break;
        }
        let mut src;
        let started = std::time::Instant::now();
        if let Some(corpus) = &mut guided {
            let list = corpus.next();
            let tail = corpus.rng.next();
            let text: String = list.iter().map(|v| format!(" {v}")).collect();
            write_progress(&mut progress, &format!("guided {tail}{text}"));
            src = Src::with(Mode::Mix(list, Rng::new(tail)));
        } else if exh {
            write_progress(
                &mut progress,
                &format!(
                    "exh {}{}",
                    prefix.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "),
                    " ".repeat(64)
                ),
            );
            src = Src::with(Mode::Exh(prefix.clone()));
        } else {
            write_progress(&mut progress, &format!("rand {index}"));
            src = rand_src(seed, s.name, index);
        }
        // describing costs time, so only a few cases are described
        let describe = (samples.len() as u64) < nsamples && cases >= next_sample;
        let mut cx = Cx::new(describe, scale);
        cx.dumping = dump.is_some() as u8;
        let r = run_case(s, &mut src, &mut cx);
        if let Some(corpus) = &mut guided {
            corpus.learn(&src, started.elapsed().as_millis() < 40);
        }
        if let (Some(f), Some(h)) = (&mut dump, cx.dumped) {
            let _ = writeln!(f, "{index} {h:016x}");
        }
        if src.exhausted {
            complete = true;
            break;
        }
        cases += 1;
        evals += cx.evals;
        for l in &cx.labels {
            *labels.entry(l).or_insert(0) += 1;
        }
        let h = hash(strhash(s.name), &src.log);
        if cx.keys.is_empty() {
            if cx.nontrivial {
                nontrivial += 1;
                hashes.insert(h);
            }
        } else {
            nontrivial += cx.keys.len() as u64;
            for k in &cx.keys {
                hashes.insert(mix64(h, *k));
            }
        }
        if describe && (cx.nontrivial || cases > 200) {
            samples.push(format!("[{}] {}", s.name, cx.desc.join("; ")));
            next_sample = cases * 3 + 20;
        }
        if let Err(m) = r {
            violation = Some((m, src.log.clone()));
            break;
        }
        if exh {
            if src.log.is_empty() {
                complete = true;
                break;
            }
            let mut p = src.log.len();
            let mut done = true;
            while p > 0 {
                p -= 1;
                let step = if p == 0 { shards } else { 1 };
                // position 0 is sharded: an overflow there is detected at the draw
                if p == 0 || src.log[p] + step < src.bounds[p] {
                    prefix = src.log[..=p].to_vec();
                    prefix[p] += step;
                    done = p == 0 && prefix[0] >= src.bounds[0];
                    break;
                }
            }
            if done {
                complete = true;
                break;
            }
        } else {
            index += shards;
        }
    }
    if !exh {
        complete = false;
    }
    let js = format!(
        "{{\"suite\":{},\"cases\":{},\"evals\":{},\"nontrivial\":{},\"complete\":{},\"corpus\":[{},{},{}],\"labels\":{{{}}},\"samples\":{},\"violation\":{}}}",
        jstr(s.name),
        cases,
        evals,
        nontrivial,
        complete,
        guided.as_ref().map_or(0, |c| c.entries.len()),
        guided.as_ref().map_or(0, |c| c.hit),
        cov::edges(),
        labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        jlist(&samples, |x| jstr(x)),
        match &violation {
            None => "null".into(),
            Some((m, c)) => format!("{{\"msg\":{},\"choices\":{}}}", jstr(m), jlist(c, |x| x.to_string())),
        }
    );
    match out {
        Some(o) => {
            let mut buf = Vec::with_capacity(hashes.len() * 8);
            for h in &hashes {
                buf.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(format!("{o}.hashes"), buf).expect("write hashes");
            std::fs::write(&o, js).expect("write summary");
        }
        None => println!("{js}"),
    }
    if violation.is_some() { 10 } else { 0 }
}

fn one(suites: &[Suite], args: &Args) -> i32 {
    install_hook();
    let s = find(suites, args);
    if args.get("loud").is_some() {
        QUIET.store(false, Ordering::Relaxed);
    }
    let mut src = if let Some(c) = args.get("choices") {
        let list = c.split([',', ' ']).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        match args.get("tail") {
            Some(t) => Src::with(Mode::Mix(list, Rng::new(t.parse().unwrap()))),
            None => Src::replay(list),
        }
    } else if let Some(f) = args.get("file") {
        let t = std::fs::read_to_string(f).expect("choices file");
        Src::replay(t.split_whitespace().map(|x| x.parse().unwrap()).collect())
    } else {
        rand_src(args.num("seed", 1), s.name, args.num("index", 0))
    };
    if let Some(p) = args.get("stream") {
        src.stream = Some(File::create(p).expect("stream file"));
    }
    let mut cx = Cx::new(args.get("verbose").is_some(), args.num("scale", 0));
    cx.dumping = 2 * args.get("dump").is_some() as u8;
    let r = run_case(s, &mut src, &mut cx);
    let js = format!(
        "{{\"ok\":{},\"msg\":{},\"choices\":{},\"desc\":{},\"dump\":{}}}",
        r.is_ok(),
        jstr(r.as_ref().err().map(|s| s.as_str()).unwrap_or("")),
        jlist(&src.log, |x| x.to_string()),
        jlist(&cx.desc, |x| jstr(x)),
        cx.dump_text.as_ref().map_or("null".into(), |t| jraw(t)),
    );
    println!("{js}");
    if r.is_err() { 10 } else { 0 }
}
