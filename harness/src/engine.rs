//! The exhaustive explorer: every family is a finite, indexable space of executions, walked
//! completely on all cores. Each execution drives the real library and is judged by a reference model.

use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn parse(s: &str) -> Self {
        if s == "thorough" { Tier::Thorough } else { Tier::Quick }
    }
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// FNV-1a: stable between runs and processes.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final avalanche, so that the sharding is even
        let mut h = self.0;
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 33;
        h
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
        }
    }
}

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}
type U64Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

const SHARDS: usize = 64;
const MAX_THREADS: usize = 64;

// What each thread is running, for the watchdog and the abort handler.
static CUR_FAM: AtomicUsize = AtomicUsize::new(0);
static CUR_IDX: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(u64::MAX) }; MAX_THREADS];
static CUR_START: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }

unsafe extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

fn put(buf: &mut [u8], at: &mut usize, s: &[u8]) {
    for b in s {
        if *at < buf.len() {
            buf[*at] = *b;
            *at += 1;
        }
    }
}
fn put_num(buf: &mut [u8], at: &mut usize, mut n: u64) {
    let mut d = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        d[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    put(buf, at, &d[i..]);
}

extern "C" fn on_abort(_: i32) {
    let slot = SLOT.try_with(std::cell::Cell::get).unwrap_or(usize::MAX);
    let idx = if slot < MAX_THREADS { CUR_IDX[slot].load(Ordering::Relaxed) } else { u64::MAX };
    let mut buf = [0u8; 128];
    let mut at = 0;
    put(&mut buf, &mut at, b"\nCRASH\t");
    put_num(&mut buf, &mut at, CUR_FAM.load(Ordering::Relaxed) as u64);
    put(&mut buf, &mut at, b"\t");
    put_num(&mut buf, &mut at, idx);
    put(&mut buf, &mut at, b"\n");
    unsafe {
        write(1, buf.as_ptr().cast(), at);
        _exit(3)
    }
}

/// Aborts (stack overflow, allocation failure, panic in a destructor) are reported with the case that
/// was running instead of only killing the process.
pub fn install_handlers() {
    let h = on_abort as extern "C" fn(i32) as usize;
    unsafe {
        signal(6, h);
        // RLIMIT_AS: a run-away allocation must fail here rather than exhaust the machine
        setrlimit(9, &[16 << 30, 16 << 30]);
    }
    std::panic::set_hook(Box::new(|_| {}));
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub index: u64,
    pub what: String,
}

#[derive(Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub n_violations: u64,
    pub known: BTreeMap<String, (u64, String)>,
    pub families: Vec<(String, u64, u64, bool)>, // name, size, done, complete
    pub samples: Vec<String>,
    pub harness_panic: Option<String>,
}

pub struct Run {
    pub tier: Tier,
    pub zone: String,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    deadline: Instant,
    out: Mutex<Outcome>,
    states: Vec<Mutex<U64Set>>,
    transitions: AtomicU64,
    executions: AtomicU64,
    unspecified: AtomicU64,
    fam_no: AtomicUsize,
    stack: AtomicUsize,
    epoch: Instant,
    stop_watchdog: AtomicBool,
    /// When the first violation was met: a minute later the exploration ends, as the verdict is known.
    violated: AtomicU64,
}

pub const HANG_MS: u64 = 40_000;
const AFTER_MS: u64 = 60_000;
/// What a thread gets unless it asks for something else.
const STACK: usize = 2 << 20;

impl Run {
    pub fn new(tier: Tier, zone: &str, only: Option<(String, u64)>, budget: Duration) -> Self {
        Run {
            tier,
            zone: zone.to_string(),
            only,
            threads: std::thread::available_parallelism().map_or(4, |x| x.get()).min(MAX_THREADS - 1),
            deadline: Instant::now() + budget,
            out: Mutex::new(Outcome::default()),
            states: (0..SHARDS).map(|_| Mutex::new(U64Set::default())).collect(),
            transitions: AtomicU64::new(0),
            executions: AtomicU64::new(0),
            unspecified: AtomicU64::new(0),
            fam_no: AtomicUsize::new(0),
            stack: AtomicUsize::new(STACK),
            epoch: Instant::now(),
            stop_watchdog: AtomicBool::new(false),
            violated: AtomicU64::new(u64::MAX),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }

    /// Like `family`, with little room for recursion.
    pub fn tight<F>(&self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Case) + Sync,
    {
        self.stack.store(384 << 10, Ordering::Relaxed);
        self.family(name, n, f);
        self.stack.store(STACK, Ordering::Relaxed);
    }

    fn ms(&self) -> u64 {
        self.epoch.elapsed().as_millis() as u64
    }

    /// Walks the whole space `0..n` of a family.
    pub fn family<F>(&self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Case) + Sync,
    {
        let no = self.fam_no.fetch_add(1, Ordering::SeqCst);
        println!("FAM\t{no}\t{name}");
        CUR_FAM.store(no, Ordering::SeqCst);

        let (lo, hi) = match &self.only {
            Some((fam, idx)) if fam == name => (*idx, *idx + 1),
            Some(_) => return,
            None => (0, n),
        };

        let fam_start = Instant::now();
        let next = AtomicU64::new(lo);
        let done = AtomicU64::new(0);
        let chunk = ((hi - lo) / (self.threads as u64 * 32)).clamp(1, 512);
        let capped = AtomicBool::new(false);
        let threads = if self.only.is_some() { 1 } else { self.threads };

        std::thread::scope(|s| {
            for slot in 0..threads {
                let (next, done, capped, f) = (&next, &done, &capped, &f);
                std::thread::Builder::new()
                    .stack_size(self.stack.load(Ordering::Relaxed))
                    .spawn_scoped(s, move || {
                        SLOT.set(slot);
                        let mut case = Case::new(self, name);
                        loop {
                            let from = next.fetch_add(chunk, Ordering::Relaxed);
                            if from >= hi {
                                break;
                            }
                            if Instant::now() > self.deadline || self.ms() > self.violated.load(Ordering::Relaxed).saturating_add(AFTER_MS) {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let to = (from + chunk).min(hi);
                            for i in from..to {
                                CUR_START[slot].store(self.ms(), Ordering::Relaxed);
                                CUR_IDX[slot].store(i, Ordering::Relaxed);
                                case.idx = i;
                                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i, &mut case)));
                                if let Err(e) = r {
                                    let msg = panic_message(&*e);
                                    self.out.lock().unwrap().harness_panic =
                                        Some(format!("{name}[{i}]: {msg}"));
                                }
                            }
                            done.fetch_add(to - from, Ordering::Relaxed);
                            CUR_IDX[slot].store(u64::MAX, Ordering::Relaxed);
                            case.flush();
                        }
                        CUR_IDX[slot].store(u64::MAX, Ordering::Relaxed);
                        case.flush();
                    })
                    .unwrap();
            }
        });

        let done = done.load(Ordering::SeqCst);
        if std::env::var("VERIF_TIMES").is_ok() {
            eprintln!("{:8.2} s  {n:10}  {name}", fam_start.elapsed().as_secs_f64());
        }
        self.out.lock().unwrap().families.push((
            name.to_string(),
            hi - lo,
            done,
            !capped.load(Ordering::SeqCst),
        ));
    }

    pub fn watchdog(&self) {
        while !self.stop_watchdog.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(100));
            let now = self.ms();
            for slot in 0..MAX_THREADS {
                let idx = CUR_IDX[slot].load(Ordering::Relaxed);
                let start = CUR_START[slot].load(Ordering::Relaxed);
                if idx != u64::MAX
                    && now.saturating_sub(start) > HANG_MS
                    && CUR_IDX[slot].load(Ordering::Relaxed) == idx
                    && CUR_START[slot].load(Ordering::Relaxed) == start
                {
                    println!("\nHANG\t{}\t{idx}", CUR_FAM.load(Ordering::Relaxed));
                    std::process::exit(3);
                }
            }
        }
    }

    pub fn finish(&self) -> Outcome {
        self.stop_watchdog.store(true, Ordering::Relaxed);
        std::mem::take(&mut *self.out.lock().unwrap())
    }

    pub fn counts(&self) -> (u64, u64, u64, u64) {
        let states = self.states.iter().map(|x| x.lock().unwrap().len() as u64).sum();
        (
            states,
            self.transitions.load(Ordering::SeqCst),
            self.executions.load(Ordering::SeqCst),
            self.unspecified.load(Ordering::SeqCst),
        )
    }
}

pub fn panic_message(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else {
        "panic".to_string()
    }
}

/// Calls the library; a panic is an answer like any other.
pub fn imp<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|e| format!("panicked: {}", panic_message(&*e)))
}

pub struct Case<'a> {
    run: &'a Run,
    family: &'a str,
    pub idx: u64,
    states: Vec<u64>,
    transitions: u64,
    executions: u64,
    unspecified: u64,
    sampled: bool,
}

impl<'a> Case<'a> {
    fn new(run: &'a Run, family: &'a str) -> Self {
        Case {
            run,
            family,
            idx: 0,
            states: Vec::with_capacity(512),
            transitions: 0,
            executions: 0,
            unspecified: 0,
            sampled: false,
        }
    }

    fn flush(&mut self) {
        for s in self.states.drain(..) {
            self.run.states[(s >> 58) as usize % SHARDS].lock().unwrap().insert(s);
        }
        self.run.transitions.fetch_add(self.transitions, Ordering::Relaxed);
        self.run.executions.fetch_add(self.executions, Ordering::Relaxed);
        self.run.unspecified.fetch_add(self.unspecified, Ordering::Relaxed);
        self.transitions = 0;
        self.executions = 0;
        self.unspecified = 0;
    }

    /// A state of the reference model reached by this execution.
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T) {
        self.states.push(hash_of(s));
        if self.states.len() > 8192 {
            self.flush();
        }
    }

    /// Choices (model transitions) made by this execution.
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }

    /// An execution of the library compared with the model.
    pub fn validated(&mut self) {
        self.executions += 1;
    }

    /// An execution whose outcome the model leaves open (only termination is judged).
    pub fn unspecified(&mut self) {
        self.unspecified += 1;
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.sampled {
            self.sampled = true;
            let mut out = self.run.out.lock().unwrap();
            let mine = out.samples.iter().filter(|x| x.starts_with(self.family)).count();
            if mine < 1 && out.samples.len() < 40 {
                let s = format!("{}[{}]: {}", self.family, self.idx, f());
                out.samples.push(s.chars().take(600).collect());
            }
        }
    }

    pub fn fail(&mut self, what: impl FnOnce() -> String) {
        let mut out = self.run.out.lock().unwrap();
        out.n_violations += 1;
        self.run.violated.fetch_min(self.run.ms(), Ordering::Relaxed);
        let mine = out.violations.iter().filter(|x| x.family == self.family).count();
        if mine < 3 {
            let v = Violation {
                family: self.family.to_string(),
                index: self.idx,
                what: what(),
            };
            out.violations.push(v);
        }
    }

    /// A violation of the property that matches a listed finding exactly.
    pub fn known(&mut self, id: &str, what: impl FnOnce() -> String) {
        let mut out = self.run.out.lock().unwrap();
        if let Some(x) = out.known.get_mut(id) {
            x.0 += 1;
        } else {
            let s = what();
            out.known.insert(id.to_string(), (1, s));
        }
    }
}

/// Mixed-radix decoding of an index.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: usize) -> usize {
        let n = n as u64;
        let r = self.0 % n;
        self.0 /= n;
        r as usize
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.take(xs.len())]
    }
}

pub fn product(sizes: &[usize]) -> u64 {
    sizes.iter().map(|x| *x as u64).product()
}

/// Number of strings of length `min..=max` over `k` symbols.
pub fn strings_count(k: usize, min: usize, max: usize) -> u64 {
    (min..=max).map(|l| (k as u64).pow(l as u32)).sum()
}

/// The `i`th string (shortest first) over `k` symbols, as symbol numbers.
pub fn string_at(k: usize, min: usize, mut i: u64) -> Vec<usize> {
    let mut len = min;
    loop {
        let n = (k as u64).pow(len as u32);
        if i < n {
            break;
        }
        i -= n;
        len += 1;
    }
    let mut v = vec![0; len];
    for slot in v.iter_mut().rev() {
        *slot = (i % k as u64) as usize;
        i /= k as u64;
    }
    v
}

pub fn concat_at(alphabet: &[&str], min: usize, i: u64) -> (String, u64) {
    let v = string_at(alphabet.len(), min, i);
    let n = v.len() as u64;
    (v.into_iter().map(|x| alphabet[x]).collect(), n)
}
