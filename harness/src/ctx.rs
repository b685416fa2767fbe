//! Worker-side context: case bookkeeping, panic attribution, monitors' counters.
use crate::rng::{hash_bytes, mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

pub static IN_SUT: AtomicBool = AtomicBool::new(false);
static CUR_PTR: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static CUR_LEN: AtomicUsize = AtomicUsize::new(0);
static CRASH_FD: AtomicUsize = AtomicUsize::new(0);
static BEAT: AtomicUsize = AtomicUsize::new(0);
/// CPU seconds one case may take inside the library before it counts as never returning.
pub const CASE_CPU_S: f64 = 60.0;

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

extern "C" fn on_abort(_sig: libc::c_int) {
    // async-signal-safe: dump the current case, then die by the default action
    let fd = CRASH_FD.load(SeqCst) as i32;
    let tag: &[u8] = if IN_SUT.load(SeqCst) { b"S" } else { b"H" };
    unsafe {
        libc::write(fd, tag.as_ptr() as *const libc::c_void, 1);
        let p = CUR_PTR.load(SeqCst);
        if !p.is_null() {
            libc::write(fd, p as *const libc::c_void, CUR_LEN.load(SeqCst));
        }
        libc::signal(libc::SIGABRT, libc::SIG_DFL);
        libc::raise(libc::SIGABRT);
    }
}

pub fn install(crash_path: &str) {
    use std::os::fd::IntoRawFd;
    let f = std::fs::File::create(crash_path).expect("crash file");
    CRASH_FD.store(f.into_raw_fd() as usize, SeqCst);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_abort as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        libc::sigaction(libc::SIGABRT, &sa, std::ptr::null_mut());
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

pub fn cpu_s(clock: libc::clockid_t) -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(clock, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

/// Ends the worker (code 77, case in the crash file) when one case has used up
/// `CASE_CPU_S` of CPU time inside the library; caps memory.
pub fn watchdog() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    std::thread::spawn(|| {
        let mut beat = usize::MAX;
        let mut since = 0.0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = cpu_s(libc::CLOCK_PROCESS_CPUTIME_ID);
            let b = BEAT.load(SeqCst);
            if b != beat || !IN_SUT.load(SeqCst) {
                beat = b;
                since = now;
            } else if now - since > CASE_CPU_S {
                let fd = CRASH_FD.load(SeqCst) as i32;
                unsafe {
                    libc::write(fd, b"N".as_ptr() as *const libc::c_void, 1);
                    libc::write(fd, CUR_PTR.load(SeqCst) as *const libc::c_void, CUR_LEN.load(SeqCst));
                    libc::_exit(77);
                }
            }
        }
    });
}

/// Run code under test; a panic in it is caught and described.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_SUT.swap(true, SeqCst);
    let q = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|x| x.set(q));
    IN_SUT.store(was, SeqCst);
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Data {
    Text(String),
    Seed(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub workload: String,
    pub data: Data,
}

pub enum Outcome {
    /// Held; `true` when the case was non-trivial by the property's rule.
    Held(bool),
    /// The property says nothing about this case.
    Skip(&'static str),
    Viol(String, String),
}

pub type V = Result<bool, (String, String)>;

#[macro_export]
macro_rules! bail {
    ($kind:expr, $($a:tt)*) => { return $crate::ctx::Outcome::Viol($kind.to_string(), format!($($a)*)) };
}
/// Unwrap the result of `sut`, turning a panic into a violation.
#[macro_export]
macro_rules! tri {
    ($e:expr, $what:expr) => {
        match $crate::ctx::sut(|| $e) {
            Ok(v) => v,
            Err(p) => return $crate::ctx::Outcome::Viol("panic".to_string(), format!("{} panicked: {}", $what, p)),
        }
    };
}

#[derive(Default, Serialize, Deserialize)]
pub struct Report {
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub violations: Vec<Violation>,
    pub notes: Vec<String>,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub worker: usize,
    pub workers: usize,
    pub verif: String,
    pub start: Instant,
    pub soft_limit_s: u64,
    pub rep: Report,
    pub distinct: HashSet<u64>,
    pub max_viol: usize,
    sample_stride: u64,
    cur: Vec<u8>,
    pub case_no: u64,
    pub scale_pct: u64,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, worker: usize, workers: usize, verif: String) -> Self {
        Ctx {
            seed,
            thorough,
            worker,
            workers,
            verif,
            start: Instant::now(),
            soft_limit_s: if thorough { 600 } else { 240 },
            rep: Report::default(),
            distinct: HashSet::new(),
            max_viol: 5,
            sample_stride: 1,
            cur: vec![],
            case_no: 0,
            scale_pct: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100),
        }
    }
    /// quick/thorough case count, split over the workers
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let t = if self.thorough { thorough } else { quick };
        let t = t * self.scale_pct / 100;
        let w = self.workers as u64;
        t / w + if (self.worker as u64) < t % w { 1 } else { 0 }
    }
    pub fn mine(&self, i: usize) -> bool {
        i % self.workers == self.worker
    }
    pub fn rng(&self, stream: &str) -> Rng {
        Rng::new(mix(mix(self.seed, hash_bytes(stream.as_bytes())), self.worker as u64 + 1))
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.rep.counters.get_mut(k) {
            *c += n;
        } else {
            self.rep.counters.insert(k.to_string(), n);
        }
    }
    pub fn out_of_time(&mut self) -> bool {
        if self.start.elapsed().as_secs() > self.soft_limit_s {
            self.rep.counters.insert("stopped_at_soft_time_limit".into(), 1);
            true
        } else {
            false
        }
    }
    pub fn stop(&mut self) -> bool {
        self.rep.violations.len() >= self.max_viol || (self.case_no % 256 == 0 && self.out_of_time())
    }
    /// Publish the case for crash attribution.
    pub fn publish(&mut self, workload: &str, data: &Data) {
        self.cur.clear();
        self.cur.extend_from_slice(workload.as_bytes());
        self.cur.push(0);
        match data {
            Data::Text(t) => {
                self.cur.push(b'T');
                self.cur.extend_from_slice(t.as_bytes());
            }
            Data::Seed(s) => {
                self.cur.push(b'#');
                self.cur.extend_from_slice(s.to_string().as_bytes());
            }
        }
        BEAT.fetch_add(1, SeqCst);
        CUR_LEN.store(0, SeqCst);
        CUR_PTR.store(self.cur.as_mut_ptr(), SeqCst);
        CUR_LEN.store(self.cur.len(), SeqCst);
    }
    pub fn text(&mut self, workload: &str, t: &str, f: impl Fn(&mut Ctx, &str) -> Outcome) {
        let data = Data::Text(t.to_string());
        self.publish(workload, &data);
        let o = f(self, t);
        let h = hash_bytes(t.as_bytes());
        if let Outcome::Viol(kind, _) = &o {
            let small = self.shrink(t, kind, &f);
            let data = Data::Text(small.clone());
            self.publish(workload, &data);
            let o = f(self, &small);
            self.settle(workload, data, hash_bytes(small.as_bytes()), o);
            return;
        }
        self.settle(workload, data, h, o);
    }
    pub fn seeded(&mut self, workload: &str, s: u64, f: impl Fn(&mut Ctx, u64) -> Outcome) {
        let data = Data::Seed(s);
        self.publish(workload, &data);
        let o = f(self, s);
        self.settle(workload, data, s, o);
    }
    fn shrink(&mut self, t: &str, kind: &str, f: &impl Fn(&mut Ctx, &str) -> Outcome) -> String {
        let saved = self.rep.counters.clone();
        let mut cur: Vec<char> = t.chars().collect();
        let mut left = 30_000u32;
        let mut bad = |me: &mut Ctx, cand: &[char], left: &mut u32| -> bool {
            if *left == 0 {
                return false;
            }
            // long texts take long: fewer tries for them
            *left = left.saturating_sub(1 + cand.len() as u32 / 64);
            let s: String = cand.iter().collect();
            me.publish("shrink", &Data::Text(s.clone()));
            matches!(f(me, &s), Outcome::Viol(k, _) if k == kind)
        };
        loop {
            let before = cur.len();
            // remove chunks
            let mut chunk = (cur.len() / 2).max(1);
            loop {
                let mut i = 0;
                let mut progress = false;
                while i < cur.len() && left > 0 {
                    let end = (i + chunk).min(cur.len());
                    let mut cand = cur.clone();
                    cand.drain(i..end);
                    if bad(self, &cand, &mut left) {
                        cur = cand;
                        progress = true;
                    } else {
                        i = end;
                    }
                }
                if left == 0 || (chunk == 1 && !progress) {
                    break;
                }
                if !progress {
                    chunk /= 2;
                }
            }
            // replace short runs by one letter
            for k in [8, 6, 5, 4, 3, 2] {
                let mut i = 0;
                while i + k <= cur.len() {
                    let mut cand = cur.clone();
                    cand.splice(i..i + k, ['a']);
                    if bad(self, &cand, &mut left) {
                        cur = cand;
                    } else {
                        i += 1;
                    }
                }
            }
            // remove two separated characters at once (brackets)
            if cur.len() <= 160 {
                let mut i = 0;
                while i < cur.len() {
                    let mut j = i + 1;
                    let mut hit = false;
                    while j < cur.len() {
                        let mut cand = cur.clone();
                        cand.remove(j);
                        cand.remove(i);
                        if bad(self, &cand, &mut left) {
                            cur = cand;
                            hit = true;
                            break;
                        }
                        j += 1;
                    }
                    if !hit {
                        i += 1;
                    }
                }
            }
            if cur.len() == before || left == 0 {
                break;
            }
        }
        self.rep.counters = saved;
        cur.into_iter().collect()
    }
    pub fn settle(&mut self, workload: &str, data: Data, h: u64, o: Outcome) {
        self.case_no += 1;
        self.rep.evaluations += 1;
        let key = format!("workload:{workload}");
        self.count(&key);
        match o {
            Outcome::Held(nt) => {
                if nt {
                    self.distinct.insert(h);
                    let n = self.distinct.len() as u64;
                    if n >= self.sample_stride && self.rep.samples.len() < 4 {
                        self.sample_stride = n * 9 + 3;
                        let v = match &data {
                            Data::Text(t) => {
                                let t: String = t.chars().take(400).collect();
                                serde_json::json!({"workload": workload, "input": t})
                            }
                            Data::Seed(s) => serde_json::json!({"workload": workload, "case_seed": s}),
                        };
                        self.rep.samples.push(v);
                    }
                } else {
                    self.count("held_trivially");
                }
            }
            Outcome::Skip(why) => {
                let k = format!("not_judged:{why}");
                self.count(&k);
            }
            Outcome::Viol(kind, detail) => {
                self.count("violating_cases");
                self.rep.violations.push(Violation { kind, detail, workload: workload.to_string(), data });
            }
        }
    }
    pub fn sample(&mut self, v: serde_json::Value) {
        if self.rep.samples.len() < 8 {
            self.rep.samples.push(v);
        }
    }
}
