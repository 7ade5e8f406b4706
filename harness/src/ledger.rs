//! Global ledger of instrumented elements, plus the fault injection countdown.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Counts {
    pub created: u64,
    pub cloned: u64,
    pub defaulted: u64,
    pub dropped: u64,
}

#[derive(Default)]
pub struct Ledger {
    base: u32,
    /// state (1 live, 2 dropped) and value of element `base + i`
    ents: Vec<(u8, u64)>,
    pub live: i64,
    pub zlive: i64,
    pub counts: Counts,
    pub errors: Vec<String>,
}

static LEDGER: Mutex<Option<Ledger>> = Mutex::new(None);

pub struct L(MutexGuard<'static, Option<Ledger>>);
impl std::ops::Deref for L {
    type Target = Ledger;
    fn deref(&self) -> &Ledger {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for L {
    fn deref_mut(&mut self) -> &mut Ledger {
        self.0.as_mut().unwrap()
    }
}

pub fn lock() -> L {
    let mut g = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(Ledger { base: 1, ..Default::default() });
    }
    L(g)
}

pub fn reset() {
    disarm();
    let mut l = lock();
    let next = l.base.wrapping_add(l.ents.len() as u32);
    l.base = if next > 0x7000_0000 { 1 } else { next };
    l.ents.clear();
    l.live = 0;
    l.zlive = 0;
    l.counts = Counts::default();
    l.errors.clear();
}

impl Ledger {
    fn err(&mut self, s: String) {
        if self.errors.len() < 8 {
            self.errors.push(s);
        }
    }
    pub fn create(&mut self, v: u64) -> u32 {
        self.ents.push((1, v));
        self.live += 1;
        self.base + (self.ents.len() - 1) as u32
    }
    fn slot(&mut self, id: u32) -> Option<usize> {
        let i = id.wrapping_sub(self.base) as usize;
        if id >= self.base && i < self.ents.len() { Some(i) } else { None }
    }
    pub fn read(&mut self, id: u32, canary: bool) -> u64 {
        match self.slot(id) {
            Some(i) if canary && self.ents[i].0 == 1 => self.ents[i].1,
            Some(i) if canary => {
                let v = self.ents[i].1;
                self.err(format!("element #{id} (value {v}) is used after it was dropped"));
                v
            }
            _ => {
                self.err(format!("a value that never was an element is used (id word {id:#x})"));
                0xBAD
            }
        }
    }
    pub fn write(&mut self, id: u32, canary: bool, v: u64) {
        self.read(id, canary);
        if let Some(i) = self.slot(id) {
            self.ents[i].1 = v;
        }
    }
    pub fn drop(&mut self, id: u32, canary: bool) {
        match self.slot(id) {
            Some(i) if canary => {
                if self.ents[i].0 == 1 {
                    self.ents[i].0 = 2;
                    self.live -= 1;
                    self.counts.dropped += 1;
                } else {
                    let v = self.ents[i].1;
                    self.err(format!("element #{id} (value {v}) is dropped twice"));
                }
            }
            _ => self.err(format!("a value that never was an element is dropped (id word {id:#x})")),
        }
    }
    pub fn zdrop(&mut self) {
        self.zlive -= 1;
        self.counts.dropped += 1;
        if self.zlive < 0 {
            self.err("more zero-sized elements dropped than were created".into());
        }
    }
}

pub fn counts() -> Counts {
    lock().counts
}

/// number of live instrumented elements
pub fn live() -> i64 {
    let l = lock();
    l.live + l.zlive
}

pub fn check() -> Result<(), String> {
    let l = lock();
    if l.errors.is_empty() { Ok(()) } else { Err(l.errors.join("; ")) }
}

// ---------------------------------------------------------------- faults

/// -1: disarmed, otherwise the number of caller-code invocations left before the fault fires
static COUNTDOWN: AtomicI64 = AtomicI64::new(-1);
static ARMED: AtomicI64 = AtomicI64::new(0);
static TICKS: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
static FIRED_KIND: Mutex<&'static str> = Mutex::new("");

pub const FAULT_MSG: &str = "injected fault";

/// Starts counting invocations of caller code; the one numbered `k` (from 0) panics.
pub fn arm(k: Option<u64>) {
    TICKS.store(0, SeqCst);
    FIRED.store(0, SeqCst);
    COUNTDOWN.store(k.map(|k| k as i64).unwrap_or(-1), SeqCst);
    ARMED.store(1, SeqCst);
}

/// Returns (invocations seen, fired?)
pub fn disarm() -> (u64, bool) {
    ARMED.store(0, SeqCst);
    COUNTDOWN.store(-1, SeqCst);
    (TICKS.load(SeqCst), FIRED.load(SeqCst) != 0)
}

pub fn fired_kind() -> &'static str {
    *FIRED_KIND.lock().unwrap_or_else(|e| e.into_inner())
}

/// Called at the start of every piece of caller-supplied code.
pub fn tick(kind: &'static str) {
    if ARMED.load(SeqCst) == 0 {
        return;
    }
    if std::thread::panicking() {
        return;
    }
    TICKS.fetch_add(1, SeqCst);
    if COUNTDOWN.load(SeqCst) >= 0 && COUNTDOWN.fetch_sub(1, SeqCst) == 0 {
        FIRED.store(1, SeqCst);
        *FIRED_KIND.lock().unwrap_or_else(|e| e.into_inner()) = kind;
        std::panic::panic_any(FAULT_MSG);
    }
}
