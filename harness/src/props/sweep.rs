//! Runs the workloads of all properties in one process and records how each run ended. Used by
//! C33 (the process is instrumented and only its sanitizer's reports count) and by C34 (panics,
//! and the comparison of two builds).
use crate::fw::*;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// runs of the slow workloads; the others make as many as in their own quick check, at most `cap`
const SLOW: &[(&str, &str, usize)] = &[
    ("C10", "huge", 2),
    ("C10", "vast", 0),
    ("C13", "sponge", 60),
    ("C19", "big", 8),
    ("C20", "large", 3),
    ("C21", "large", 3),
    ("C22", "large", 3),
    ("C23", "large", 3),
    ("C24", "large", 3),
    ("C26", "small", 6),
    ("C26", "large", 0),
    ("C27", "sign", 24),
    ("C27", "auto", 12),
    ("C28", "fast", 80),
    ("C29", "generic", 32),
    ("C29", "names", 1),
    ("C29", "keys", 24),
    ("C30", "ecdsa", 4),
    ("C31", "dsa-key", 1),
    ("C31", "ec", 16),
    ("C32", "ec", 16),
    ("C34", "ec", 80),
    ("C35", "ecdsa", 18),
    ("C36", "ecdsa", 12),
    ("C37", "ec", 12),
    ("C37", "hash", 0),
    ("C37", "zuc", 0),
    ("C37", "zuc-cipher", 0),
];

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

pub fn run(args: &[String], seed: u64, tier: Tier, out: Option<String>) -> i32 {
    let cap: usize = arg(args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(80);
    let mult = if tier == Tier::Quick { 1 } else { 10 };
    // --only C01/random,C28/fast:3
    let only: Option<Vec<(String, usize)>> = arg(args, "--only").map(|s| {
        s.split(',')
            .map(|x| {
                let mut it = x.split(':');
                (it.next().unwrap_or("").to_string(), it.next().and_then(|n| n.parse().ok()).unwrap_or(1))
            })
            .collect()
    });
    let deadline: f64 = arg(args, "--deadline").and_then(|s| s.parse().ok()).unwrap_or(f64::MAX);
    let share: usize = arg(args, "--share").and_then(|s| s.parse().ok()).unwrap_or(1);
    let begin = std::time::Instant::now();
    let skip: Vec<String> = arg(args, "--skip").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let one: Option<usize> = arg(args, "--index").and_then(|s| s.parse().ok());
    let props = super::all();
    let mut list: Vec<(usize, usize, usize)> = vec![];
    for (pi, p) in props.iter().enumerate() {
        for (ji, j) in p.jobs.iter().enumerate() {
            let full = format!("{}/{}", p.id, j.name);
            if skip.contains(&full) || skip.iter().any(|s| s == p.id) {
                continue;
            }
            let n = match &only {
                Some(o) => o.iter().find(|x| x.0 == full).map(|x| x.1).unwrap_or(0),
                None => {
                    let most = if tier == Tier::Quick { j.quick } else { j.thorough };
                    let slow = SLOW.iter().find(|s| s.0 == p.id && s.1 == j.name).map(|s| s.2);
                    let n = slow.map(|n| (n + share - 1) / share).unwrap_or(j.quick.min(cap));
                    (n * mult).min(most)
                }
            };
            match one {
                Some(i) if n > 0 => list.push((pi, ji, i)),
                _ => list.extend((0..n).map(|i| (pi, ji, i))),
            }
        }
    }
    // first runs of everything first, in the same order everywhere
    list.sort_by_key(|x| (x.2, x.0, x.1));
    let total = list.len();
    let ran = AtomicUsize::new(0);
    let all: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
    let next = AtomicUsize::new(0);
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8).min(total.max(1));
    let log = Mutex::new(match &out {
        Some(f) => match std::fs::File::create(f) {
            Ok(f) => Box::new(f) as Box<dyn Write + Send>,
            Err(_) => return 4,
        },
        None => Box::new(std::io::stdout()) as Box<dyn Write + Send>,
    });
    let work = || loop {
        let k = next.fetch_add(1, Ordering::SeqCst);
        if k >= total || begin.elapsed().as_secs_f64() > deadline {
            break;
        }
        ran.fetch_add(1, Ordering::SeqCst);
        let (pi, ji, i) = list[k];
        let (p, j) = (&props[pi], &props[pi].jobs[ji]);
        let _ = writeln!(log.lock().unwrap(), "start {}/{} {}", p.id, j.name, i);
        let t0 = std::time::Instant::now();
        let (cx, r) = run_one(p, j, seed, tier, i);
        let end = match r {
            Ok(Ok(())) => "held".to_string(),
            Ok(Err(b)) => format!("{} {}", b.sig.replace(' ', "_"), b.detail.replace('\n', " ")),
            Err(m) => format!("harness {}", m.replace('\n', " ")),
        };
        let mut seen: Vec<u64> = cx.distinct.iter().cloned().collect();
        seen.sort();
        all.lock().unwrap().extend(seen.iter().cloned());
        let mut t = cx.transcript;
        for s in &seen {
            t = (t ^ s).wrapping_mul(0x100000001b3).rotate_left(9);
        }
        for (k, v) in &cx.events {
            t = (t ^ hash64(&[k.as_bytes(), &v.to_le_bytes()])).wrapping_mul(0x100000001b3).rotate_left(9);
        }
        let _ = writeln!(log.lock().unwrap(), "end {}/{} {} {} {} {:016x} {:.3} {}", p.id, j.name, i, cx.evals, seen.len(), t, t0.elapsed().as_secs_f64(), end);
    };
    if threads <= 1 {
        work();
    } else {
        std::thread::scope(|s| {
            for _ in 0..threads {
                if std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, &work).is_err() {
                    std::process::exit(4);
                }
            }
        });
    }
    let _ = writeln!(log.lock().unwrap(), "done {} {} {}", ran.load(Ordering::SeqCst), total, all.lock().unwrap().len());
    0
}

/// Does on purpose what a sanitizer has to report; shows that the instrumentation is at work.
#[allow(unconditional_panic)]
pub fn canary(what: &str) -> i32 {
    let v: Vec<u8> = std::hint::black_box(vec![1; 24]);
    match what {
        "overread" => {
            let p = std::hint::black_box(v.as_ptr());
            let x = unsafe { std::ptr::read_unaligned(p.add(16) as *const [u8; 16]) };
            println!("{}", std::hint::black_box(x)[9]);
        }
        "freed" => {
            let p = std::hint::black_box(v.as_ptr());
            drop(v);
            println!("{}", unsafe { std::ptr::read(p.add(3)) });
        }
        "leak" => {
            // in a thread that has ended, so that no stack or register still names the blocks
            let _ = std::thread::spawn(|| {
                for _ in 0..20 {
                    std::mem::forget(std::hint::black_box(Box::new([0u8; 1000])));
                }
            })
            .join();
        }
        "alias" => {
            let mut a = std::hint::black_box([0u32; 4]);
            let p = &mut a as *mut [u32; 4];
            let (x, y) = unsafe { (&mut *p, &*p) };
            fn f(x: &mut [u32; 4], y: &[u32; 4]) {
                x[0] = y[0] + 1;
                x[1] = y[0] + 1;
            }
            f(x, y);
            println!("{}", a[1]);
        }
        _ => return 4,
    }
    0
}
