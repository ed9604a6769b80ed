//! Runs the workloads of one property (or a sweep over all of them) against the real library
//! with monitors attached, and writes what was observed as JSON.
#[macro_use]
mod fw;
mod lib_api;
mod props;
mod refs;
mod selftest;

use fw::*;
use std::io::Write;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn result_json(p: &Prop, o: &Outcome, missing: &[String], wall: f64) -> String {
    let mut s = String::from("{");
    s += &format!("\"property\":{},\"wall_s\":{:.3},", jstr(p.id), wall);
    s += &format!("\"evaluations\":{},\"trivial\":{},\"distinct_nontrivial\":{},", o.evals, o.trivial, o.distinct);
    s += &format!("\"jobs_run\":{},\"transcript\":\"{:016x}\",\"rule\":{},", o.jobs_run, o.transcript, jstr(p.rule));
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    s += &format!("\"assumptions\":{},", list(p.assumptions.iter().map(|x| jstr(x)).collect()));
    s += &format!("\"samples\":{},", list(o.samples.iter().map(|x| jstr(x)).collect()));
    s += &format!("\"events\":{{{}}},", o.events.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    s += &format!("\"missing_events\":{},", list(missing.iter().map(|x| jstr(x)).collect()));
    s += &format!("\"harness_errors\":{},", list(o.harness_errors.iter().map(|x| jstr(x)).collect()));
    s += &format!(
        "\"broken\":{}",
        list(
            o.broken
                .iter()
                .map(|(j, i, b)| format!("{{\"job\":{},\"index\":{},\"sig\":{},\"detail\":{}}}", jstr(j), i, jstr(&b.sig), jstr(&b.detail)))
                .collect()
        )
    );
    s.push_str("}\n");
    s
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if arg(&args, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let out = arg(&args, "--out");
    match cmd {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
                for j in p.jobs {
                    println!("  {} quick={} thorough={}", j.name, j.quick, j.thorough);
                }
            }
        }
        "selftest" => match no_panic(selftest::run) {
            Ok(n) => println!("selftest ok: {} reference checks", n),
            Err(m) => {
                println!("selftest FAILED: {}", m);
                std::process::exit(3);
            }
        },
        "check" => {
            let id = args.get(1).cloned().unwrap_or_default();
            let p = match props::all().into_iter().find(|p| p.id == id) {
                Some(p) => p,
                None => {
                    eprintln!("unknown property {}", id);
                    std::process::exit(4);
                }
            };
            if let Err(m) = no_panic(selftest::run) {
                eprintln!("reference self-test failed: {}", m);
                std::process::exit(3);
            }
            let only = arg(&args, "--job").map(|j| (j, arg(&args, "--index").and_then(|s| s.parse().ok()).unwrap_or(0)));
            let t0 = std::time::Instant::now();
            let o = run_prop(&p, seed, tier, only.as_ref().map(|(j, i)| (j.as_str(), *i)));
            let missing: Vec<String> = if only.is_some() || !o.broken.is_empty() {
                vec![]
            } else {
                p.require.iter().filter(|e| o.events.get(**e).copied().unwrap_or(0) == 0).map(|e| e.to_string()).collect()
            };
            let js = result_json(&p, &o, &missing, t0.elapsed().as_secs_f64());
            if let Some(f) = out {
                std::fs::File::create(f).unwrap().write_all(js.as_bytes()).unwrap();
            } else {
                print!("{}", js);
            }
            for (j, i, b) in &o.broken {
                eprintln!("BROKEN {}[{}] {}: {}", j, i, b.sig, b.detail);
            }
            for m in &o.harness_errors {
                eprintln!("HARNESS {}", m);
            }
            std::process::exit(if !o.broken.is_empty() { 1 } else if !o.harness_errors.is_empty() || !missing.is_empty() { 3 } else { 0 });
        }
        "sweep" => std::process::exit(props::sweep::run(&args, seed, tier, out)),
        "canary" => std::process::exit(props::sweep::canary(args.get(1).map(|s| s.as_str()).unwrap_or(""))),
        _ => {
            eprintln!("usage: vharness list | selftest | check ID [--seed N --tier T --out F --job J --index I] | sweep ...");
            std::process::exit(4);
        }
    }
}
