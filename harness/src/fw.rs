//! Check framework: deterministic jobs, evidence counters, three-valued verdicts.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// splitmix64-seeded xoshiro256**
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// byte strings with structure: random, constant, sparse, counting
    pub fn patterned(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => vec![self.u8(); n],
            3 => (0..n).map(|i| i as u8).collect(),
            4 => {
                let mut v = vec![0; n];
                if n > 0 {
                    let i = self.below(n * 8);
                    v[i / 8] |= 0x80 >> (i % 8);
                }
                v
            }
            _ => self.bytes(n),
        }
    }
    /// a random composition of `n` into pieces (possibly with empty pieces)
    pub fn split(&mut self, n: usize, unit: usize) -> Vec<usize> {
        let mut out = Vec::new();
        let mut left = n;
        let style = self.below(6);
        let fixed = 1 + self.below(2 * unit + 2);
        while left > 0 {
            let k = match style {
                0 => left,
                1 => 1,
                2 => fixed,
                3 => *self.pick(&[0, 1, unit.saturating_sub(1), unit, unit + 1, 2 * unit, 3 * unit + 1]),
                4 => self.below(4 * unit + 2),
                _ => self.below(left + 1),
            };
            let k = k.min(left);
            out.push(k);
            left -= k;
            if out.len() > 4 * n + 16 {
                out.push(left);
                break;
            }
        }
        if self.chance(1, 4) {
            out.push(0);
        }
        if self.chance(1, 4) {
            out.insert(0, 0);
        }
        out
    }
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for &b in p.iter() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff51afd7ed558ccd ^ (p.len() as u64);
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// abbreviated hex for messages
pub fn hx(b: &[u8]) -> String {
    if b.len() <= 80 {
        hex(b)
    } else {
        format!("{}..({} bytes, h={:016x})", hex(&b[..48]), b.len(), hash64(&[b]))
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a job reports when the property is broken.
#[derive(Debug, Clone)]
pub struct Broken {
    pub sig: String,
    pub detail: String,
}

pub type R = Result<(), Broken>;

pub fn broken(sig: &str, detail: String) -> R {
    Err(Broken { sig: sig.to_string(), detail })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) {
            return Err($crate::fw::Broken { sig: ($sig).to_string(), detail: format!($($a)*) });
        }
    };
}

#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $sig:expr, $($a:tt)*) => {{
        let (g, w) = (&$got, &$want);
        if g != w {
            return Err($crate::fw::Broken {
                sig: ($sig).to_string(),
                detail: format!("{}: got {} expected {}", format!($($a)*), $crate::fw::hx(g.as_ref()), $crate::fw::hx(w.as_ref())),
            });
        }
    }};
}

/// Per-job context: random source and evidence counters.
pub struct Cx {
    pub rng: Rng,
    pub tier: Tier,
    pub idx: usize,
    pub evals: u64,
    pub trivial: u64,
    pub distinct: HashSet<u64>,
    pub events: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// transcript of results, for cross-build comparison
    pub transcript: u64,
}

impl Cx {
    pub fn new(seed: u64, tier: Tier, idx: usize) -> Cx {
        Cx {
            rng: Rng::new(seed),
            tier,
            idx,
            evals: 0,
            trivial: 0,
            distinct: HashSet::new(),
            events: BTreeMap::new(),
            samples: Vec::new(),
            transcript: 0xcbf29ce484222325,
        }
    }
    /// one evaluated case, identified by the bytes that make it distinct
    pub fn case(&mut self, parts: &[&[u8]]) {
        self.evals += 1;
        self.distinct.insert(hash64(parts));
    }
    pub fn trivial_case(&mut self) {
        self.evals += 1;
        self.trivial += 1;
    }
    pub fn ev(&mut self, name: &str) {
        self.evn(name, 1);
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        if let Some(v) = self.events.get_mut(name) {
            *v += n;
        } else {
            self.events.insert(name.to_string(), n);
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.is_empty() {
            self.samples.push(f());
        }
    }
    pub fn note(&mut self, parts: &[&[u8]]) {
        self.transcript = (self.transcript ^ hash64(parts)).wrapping_mul(0x100000001b3).rotate_left(5);
    }
}

pub struct Job {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub run: fn(&mut Cx) -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// events that must have been observed for the run to count
    pub require: &'static [&'static str],
    pub jobs: Vec<Job>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(last_panic()),
    }
}

/// An error of the harness itself (never a verdict): unwinds with this marker.
pub const HARNESS_ERR: &str = "HARNESS-ERROR";

pub fn job_seed(seed: u64, id: &str, job: &str, idx: usize) -> u64 {
    hash64(&[&seed.to_le_bytes(), id.as_bytes(), job.as_bytes(), &(idx as u64).to_le_bytes()])
}

pub struct Outcome {
    pub evals: u64,
    pub trivial: u64,
    pub distinct: usize,
    pub events: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub broken: Vec<(String, usize, Broken)>,
    pub harness_errors: Vec<String>,
    pub transcript: u64,
    pub jobs_run: usize,
}

pub fn run_one(p: &Prop, j: &Job, seed: u64, tier: Tier, idx: usize) -> (Cx, Result<R, String>) {
    let mut cx = Cx::new(job_seed(seed, p.id, j.name, idx), tier, idx);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.run)(&mut cx)));
    match r {
        Ok(r) => (cx, Ok(r)),
        Err(_) => {
            let m = last_panic();
            // a panic raised in the harness's own files is an error of the harness,
            // unless a scripted random source raised it to stop an endless loop
            let site = m.rsplit(" at ").next().unwrap_or("").to_string();
            let own = site.starts_with("src/") || site.contains("/harness/src/");
            if m.contains(HARNESS_ERR) || (own && !m.contains(crate::lib_api::ENDLESS)) {
                (cx, Err(m))
            } else {
                let sig = format!("panic:{}", if own { "endless" } else { &site });
                (cx, Ok(Err(Broken { sig, detail: format!("unexpected panic: {}", m) })))
            }
        }
    }
}

pub fn run_prop(p: &Prop, seed: u64, tier: Tier, only: Option<(&str, usize)>) -> Outcome {
    let mut list: Vec<(usize, usize)> = Vec::new();
    for (ji, j) in p.jobs.iter().enumerate() {
        let n = if tier == Tier::Quick { j.quick } else { j.thorough };
        for i in 0..n {
            if let Some((name, idx)) = only {
                if name != j.name || idx != i {
                    continue;
                }
            }
            list.push((ji, i));
        }
    }
    if let (Some((name, idx)), true) = (only, list.is_empty()) {
        // allow replaying an index beyond the tier's own count
        for (ji, j) in p.jobs.iter().enumerate() {
            if j.name == name {
                list.push((ji, idx));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let max_broken: usize = std::env::var("VERIF_MAX_BROKEN").ok().and_then(|v| v.parse().ok()).unwrap_or(5);
    let out = Mutex::new(Outcome {
        evals: 0,
        trivial: 0,
        distinct: 0,
        events: BTreeMap::new(),
        samples: Vec::new(),
        broken: Vec::new(),
        harness_errors: Vec::new(),
        transcript: 0,
        jobs_run: 0,
    });
    let all: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let threads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
    let threads = threads.min(list.len().max(1));
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= list.len() || stop.load(Ordering::SeqCst) >= max_broken {
                        break;
                    }
                    let (ji, i) = list[k];
                    let j = &p.jobs[ji];
                    let t0 = std::time::Instant::now();
                    let (cx, r) = run_one(p, j, seed, tier, i);
                    if std::env::var_os("VERIF_TIMING").is_some() {
                        eprintln!("job {}[{}] {:.2}s", j.name, i, t0.elapsed().as_secs_f64());
                    }
                    all.lock().unwrap().extend(cx.distinct.iter().cloned());
                    let mut o = out.lock().unwrap();
                    o.jobs_run += 1;
                    o.evals += cx.evals;
                    o.trivial += cx.trivial;
                    o.transcript = o.transcript.wrapping_add(hash64(&[
                        j.name.as_bytes(),
                        &(i as u64).to_le_bytes(),
                        &cx.transcript.to_le_bytes(),
                    ]));
                    for (k, v) in cx.events {
                        *o.events.entry(k).or_insert(0) += v;
                    }
                    if o.samples.len() < 40 && (i < 2) {
                        for s in cx.samples {
                            o.samples.push(format!("{}[{}]: {}", j.name, i, s));
                        }
                    }
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(b)) => {
                            o.broken.push((j.name.to_string(), i, b));
                            stop.fetch_add(1, Ordering::SeqCst);
                        }
                        Err(m) => {
                            o.harness_errors.push(format!("{}[{}]: {}", j.name, i, m));
                            stop.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut o = out.into_inner().unwrap();
    o.distinct = all.into_inner().unwrap().len();
    o.samples.sort();
    o.broken.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    o
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
