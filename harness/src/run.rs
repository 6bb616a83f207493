//! Runs groups of cases in parallel, deterministically, and keeps the books.
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

use crate::rng::{fnv, mix, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// interpreter / sanitizer builds
    Mini,
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub groups: Vec<(String, u64)>,
}

pub struct Fail {
    pub group: String,
    pub idx: u64,
    pub msg: String,
}

pub struct Case<'a> {
    pub idx: u64,
    pub rng: Rng,
    pub st: &'a mut Stats,
    pub tier: Tier,
    want_sample: bool,
}

impl<'a> Case<'a> {
    /// one monitored execution
    pub fn eval(&mut self) {
        self.st.evals += 1;
    }
    /// fingerprint of a distinct, non-trivial situation that was observed
    pub fn seen(&mut self, fp: u64) {
        if self.st.seen.len() < 3_000_000 {
            self.st.seen.insert(fp);
        }
    }
    pub fn seen_bytes(&mut self, salt: u64, b: &[u8]) {
        self.seen(mix(salt ^ fnv(b)));
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.st.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.st.maxes.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.st.samples.push(s);
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub only_groups: Option<Vec<String>>,
    pub stats: Mutex<Stats>,
    pub fails: Mutex<Vec<Fail>>,
    pub marker: Option<String>,
    pub stop: AtomicBool,
    pub group_seq: AtomicU64,
    pub scale: f64,
    pub out: Option<String>,
    /// put before the names of groups, when several checks run in one process
    pub prefix: String,
    pub times: bool,
    pub skip: Vec<String>,
    pub shard: Option<(u64, u64)>,
    /// only some blocks of the cases of each group
    pub part: Option<(u64, u64)>,
    /// print the observations of this block
    pub dump: Option<String>,
    pub group_ms: Option<u64>,
    /// only what the sanitizers say counts
    pub sanitizing: bool,
    pub digest: Mutex<BTreeMap<String, u64>>,
}

/// what the memory monitors say is marked with this
pub const SAN_MARK: &str = "memory monitor: ";

const STACK: usize = 2 << 20;

/// CPU seconds after which one case (normally microseconds to milliseconds)
/// is reported as not terminating.
const HANG_CPU_S: u64 = 90;

/// What a worker is doing, for the watchdog.
#[derive(Default)]
struct Busy {
    clock: std::sync::atomic::AtomicI32,
    idx: AtomicU64,
    on: AtomicBool,
}

#[cfg(all(target_os = "linux", not(miri)))]
mod cpu {
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    pub fn my_clock() -> i32 {
        let mut c = 0;
        unsafe {
            pthread_getcpuclockid(pthread_self(), &mut c);
        }
        c
    }
    pub fn secs(c: i32) -> u64 {
        let mut t = Ts { s: 0, n: 0 };
        if unsafe { clock_gettime(c, &mut t) } != 0 {
            return 0;
        }
        t.s as u64
    }
}
#[cfg(not(all(target_os = "linux", not(miri))))]
mod cpu {
    pub fn my_clock() -> i32 {
        0
    }
    pub fn secs(_: i32) -> u64 {
        0
    }
}

impl Ctx {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let v = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
            Tier::Mini => (quick / 500).max(3).min(quick),
        };
        ((v as f64 * self.scale) as u64).max(1)
    }
    /// sanitizer builds: ends the process with what was observed so far
    pub fn end_at_deadline(&self) -> ! {
        if let Some(p) = &self.out {
            let _ = std::fs::write(p, self.report());
        }
        std::process::exit(0)
    }
    fn emergency(&self) -> ! {
        if let (Some(p), Ok(_)) = (&self.out, self.stats.try_lock().map(drop)) {
            let _ = std::fs::write(p, self.report());
        }
        std::process::exit(1)
    }
    pub fn mini(&self) -> bool {
        self.tier == Tier::Mini
    }

    /// Runs cases `0..n`; the random choices of a case depend only on the
    /// seed, the property, the group's name and the case's index.
    pub fn group(&self, name: &str, n: u64, f: impl Fn(&mut Case) -> Res + Sync) {
        let name = &*format!("{}{}", self.prefix, name);
        if let Some((g, _)) = &self.only {
            if g != name {
                return;
            }
        }
        if let Some(gs) = &self.only_groups {
            if !gs.iter().any(|g| g == name) {
                return;
            }
        }
        if self.stop.load(Ordering::Relaxed) {
            return;
        }
        if self.skip.iter().any(|g| name == g) && self.only.is_none() {
            return;
        }
        if let (Some((k, of)), None) = (self.shard, &self.only) {
            if self.group_seq.fetch_add(1, Ordering::Relaxed) % of != k {
                return;
            }
        }
        let started = std::time::Instant::now();
        let gh = fnv(name.as_bytes()) ^ fnv(self.prop.as_bytes());
        let next = AtomicU64::new(0);
        let block = (n / (self.threads as u64 * 16)).clamp(1, 64);
        let stop_group = AtomicBool::new(false);
        let nthreads = if self.only.is_some() { 1 } else { self.threads.min(n.max(1) as usize) };
        let busy: Vec<Busy> = (0..nthreads).map(|_| Busy::default()).collect();
        let done = AtomicBool::new(false);
        let worker = |tid: usize| {
            busy[tid].clock.store(cpu::my_clock(), Ordering::Relaxed);
            let mut marker = self.marker.as_ref().map(|m| {
                std::fs::OpenOptions::new()
                    .create(true)
                    .write(true)
                    .truncate(true)
                    .open(format!("{}.{}", m, tid))
                    .expect("marker file")
            });
            let mut st = Stats::default();
            'outer: loop {
                let (lo, hi) = match &self.only {
                    Some((_, i)) => {
                        if next.fetch_add(1, Ordering::Relaxed) > 0 {
                            break;
                        }
                        (*i, *i + 1)
                    }
                    None => {
                        let lo = next.fetch_add(block, Ordering::Relaxed);
                        (lo, (lo + block).min(n))
                    }
                };
                if lo >= hi {
                    break;
                }
                for idx in lo..hi {
                    // time-boxed: what is visited is a random selection
                    let idx = match (self.group_ms, &self.only) {
                        (Some(ms), None) => {
                            if idx > 0 && started.elapsed().as_millis() as u64 > ms {
                                break 'outer;
                            }
                            ((idx as u128 * 2_305_843_009_213_693_951 + mix(self.seed ^ gh) as u128) % n as u128) as u64
                        }
                        _ => idx,
                    };
                    if stop_group.load(Ordering::Relaxed) {
                        break 'outer;
                    }
                    if let Some(m) = &mut marker {
                        let line = format!("{:<40} {:>20}\n", name, idx);
                        let _ = m.rewind();
                        let _ = m.write_all(line.as_bytes());
                    }
                    let mut c = Case {
                        idx,
                        rng: Rng::new(mix(self.seed) ^ gh ^ mix(idx.wrapping_mul(0x1234_5678_9ABC_DEF1))),
                        st: &mut st,
                        tier: self.tier,
                        want_sample: idx == 0 || idx == n / 2,
                    };
                    let b = &busy[tid];
                    b.idx.store(idx, Ordering::SeqCst);
                    b.on.store(true, Ordering::SeqCst);
                    let t0 = std::time::Instant::now();
                    let r = f(&mut c);
                    if self.times && cfg!(miri) && t0.elapsed().as_millis() > 1500 {
                        eprintln!("slow case {} {}: {:.1} s", name, idx, t0.elapsed().as_secs_f64());
                    }
                    b.on.store(false, Ordering::SeqCst);
                    if let Err(msg) = r {
                        if self.sanitizing && !msg.contains(SAN_MARK) {
                            *st.counts.entry("ended_by_a_functional_difference").or_insert(0) += 1;
                            continue;
                        }
                        let mut fs = self.fails.lock().unwrap();
                        fs.push(Fail {
                            group: name.to_string(),
                            idx,
                            msg,
                        });
                        stop_group.store(true, Ordering::Relaxed);
                        self.stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            if let Some(m) = &mut marker {
                let _ = m.rewind();
                let _ = m.set_len(0);
            }
            let mut s = self.stats.lock().unwrap();
            s.evals += st.evals;
            for (k, v) in st.counts {
                *s.counts.entry(k).or_insert(0) += v;
            }
            for (k, v) in st.maxes {
                let e = s.maxes.entry(k).or_insert(0);
                *e = (*e).max(v);
            }
            if s.seen.len() < 8_000_000 {
                s.seen.extend(st.seen);
            }
            if s.samples.len() < 24 {
                s.samples.extend(st.samples);
            }
        };
        std::thread::scope(|s| {
            let dog = (!self.mini()).then(|| {
                s.spawn(|| {
                    let mut first: Vec<(u64, u64)> = vec![(u64::MAX, 0); busy.len()];
                    while !done.load(Ordering::SeqCst) {
                        std::thread::park_timeout(std::time::Duration::from_millis(500));
                        for (b, f) in busy.iter().zip(&mut first) {
                            let idx = if b.on.load(Ordering::SeqCst) { b.idx.load(Ordering::SeqCst) } else { u64::MAX };
                            if idx == u64::MAX {
                                *f = (idx, 0);
                                continue;
                            }
                            let now = cpu::secs(b.clock.load(Ordering::SeqCst));
                            if f.0 != idx {
                                *f = (idx, now);
                            } else if now > f.1 + HANG_CPU_S && self.sanitizing {
                                eprintln!("HARNESS-ERROR: {} case {} does not end", name, idx);
                                std::process::exit(3);
                            } else if now > f.1 + HANG_CPU_S {
                                self.fails.lock().unwrap().push(Fail {
                                    group: name.to_string(),
                                    idx,
                                    msg: format!("does not terminate: more than {} seconds of CPU time in one case", HANG_CPU_S),
                                });
                                self.emergency();
                            }
                        }
                    }
                })
            });
            let mut hs = vec![];
            for t in 0..nthreads {
                let w = &worker;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || w(t))
                        .expect("spawn"),
                );
            }
            let mut bad = false;
            for h in hs {
                bad |= h.join().is_err();
            }
            done.store(true, Ordering::SeqCst);
            if let Some(d) = dog {
                d.thread().unpark();
            }
            if bad {
                eprintln!("HARNESS-ERROR: a worker of group {} panicked outside the code under test", name);
                std::process::exit(3);
            }
        });
        if self.times {
            eprintln!("{:<40} {:>9} cases {:>8.3} s", name, n, started.elapsed().as_secs_f64());
        }
        self.stats.lock().unwrap().groups.push((name.to_string(), n));
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    /// one JSON object with everything that was observed
    pub fn report(&self) -> String {
        let s = self.stats.lock().unwrap();
        let f = self.fails.lock().unwrap();
        let mut o = String::from("{");
        o += &format!("\"evaluations\":{},\"distinct\":{},", s.evals, s.seen.len());
        let c: Vec<String> = s.counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o += &format!("\"counts\":{{{}}},", c.join(","));
        let c: Vec<String> = s.maxes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o += &format!("\"maxes\":{{{}}},", c.join(","));
        let c: Vec<String> = s.groups.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o += &format!("\"groups\":{{{}}},", c.join(","));
        let d = self.digest.lock().unwrap();
        let c: Vec<String> = d.iter().map(|(k, v)| format!("{}:\"{:016x}\"", esc(k), v)).collect();
        o += &format!("\"digest\":{{{}}},", c.join(","));
        let c: Vec<String> = s.samples.iter().take(12).map(|k| esc(k)).collect();
        o += &format!("\"samples\":[{}],", c.join(","));
        let c: Vec<String> = f
            .iter()
            .map(|x| format!("{{\"group\":{},\"idx\":{},\"msg\":{}}}", esc(&x.group), x.idx, esc(&x.msg)))
            .collect();
        o += &format!("\"fails\":[{}]}}", c.join(","));
        o
    }
}
