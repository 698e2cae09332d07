#![allow(dead_code)]
//! Bounded engine: runs the real code of /repo (path dependency) on generated
//! inputs, mostly over exact rationals, against textbook definitions.
//!   cvharness list
//!   cvharness run <property> --tier quick|thorough --seed N --out FILE [--budget SECS]
//!   cvharness replay FILE
#[macro_use]
mod cx;
mod checks;
mod gen;
mod q;
mod refm;
use cx::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
}

struct Fail {
    sub: &'static str,
    index: u64,
    msg: String,
    input: String,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let subs = checks::all();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in &subs {
                println!("{} {} quick={} thorough={}", s.prop, s.name, s.quick, s.thorough);
            }
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let name = j["sub"].as_str().unwrap();
            let Some(s) = subs.iter().find(|s| s.name == name) else {
                println!("no subcheck named {name}");
                std::process::exit(2)
            };
            quiet_panics();
            let (r, c) = one(s, j["seed"].as_u64().unwrap(), j["index"].as_u64().unwrap());
            println!("sub {} input: {}", s.name, c);
            match r {
                Ok(()) => println!("holds"),
                Err(m) => {
                    println!("FAILS: {m}");
                    std::process::exit(1)
                }
            }
        }
        Some("run") => {
            let prop = a[2].clone();
            let thorough = arg(&a, "--tier", "quick") == "thorough";
            let seed: u64 = arg(&a, "--seed", "1").parse().unwrap();
            let budget: f64 = arg(&a, "--budget", if thorough { "500" } else { "60" }).parse().unwrap();
            let out = arg(&a, "--out", "/dev/null");
            let only = arg(&a, "--sub", "");
            let trace = arg(&a, "--trace", ""); // file: log each case before it runs (single thread)
            run(subs.into_iter().filter(|s| s.prop == prop && (only.is_empty() || s.name == only)).collect(), thorough, seed, budget, &out, &trace);
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        }
    }
}

fn run(subs: Vec<Sub>, thorough: bool, seed: u64, budget: f64, out: &str, trace: &str) {
    quiet_panics();
    let t0 = Instant::now();
    // work list: interleave subs so that a budget cut is even
    let total: Vec<u64> = subs.iter().map(|s| if thorough { s.thorough as u64 * 10 } else { s.quick as u64 * 10 }).collect();
    let mut jobs: Vec<(usize, u64)> = vec![];
    let mx = *total.iter().max().unwrap_or(&0);
    for i in 0..mx {
        for (k, t) in total.iter().enumerate() {
            // spread the cases of every sub uniformly over the whole run
            let lo = i * t / mx;
            let hi = (i + 1) * t / mx;
            for j in lo..hi {
                jobs.push((k, j));
            }
        }
    }
    let next = Arc::new(AtomicUsize::new(0));
    let subs = Arc::new(subs);
    let jobs = Arc::new(jobs);
    let fails: Arc<Mutex<Vec<Fail>>> = Default::default();
    let counts: Arc<Mutex<HashMap<&'static str, (u64, u64, u64)>>> = Default::default(); // run, nontrivial distinct, known
    let seen: Arc<Mutex<HashSet<u64>>> = Default::default();
    let samples: Arc<Mutex<Vec<serde_json::Value>>> = Default::default();
    let nth = if trace.is_empty() { 8 } else { 1 };
    let beat: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..nth).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let done = Arc::new(AtomicUsize::new(0));
    for th in 0..nth {
        let (next, subs, jobs, fails, counts, seen, samples, beat, done, trace) = (next.clone(), subs.clone(), jobs.clone(), fails.clone(), counts.clone(), seen.clone(), samples.clone(), beat.clone(), done.clone(), trace.to_string());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() || t0.elapsed().as_secs_f64() > budget || fails.lock().unwrap().len() >= 20 {
                        break;
                    }
                    let (k, idx) = jobs[i];
                    let s = &subs[k];
                    if !trace.is_empty() {
                        std::fs::write(&trace, format!("{} {}", s.name, idx)).unwrap();
                    }
                    beat[th].1.store(i as u64, Ordering::SeqCst);
                    beat[th].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                    let (r, input) = one(s, seed, idx);
                    beat[th].0.store(0, Ordering::SeqCst);
                    let fresh = !input.is_empty() && seen.lock().unwrap().insert(fnv(&format!("{}{}", s.name, input)));
                    let mut c = counts.lock().unwrap();
                    let e = c.entry(s.name).or_insert((0, 0, 0));
                    e.0 += 1;
                    if fresh {
                        e.1 += 1;
                        if e.1 == 2 {
                            samples.lock().unwrap().push(serde_json::json!({"sub": s.name, "index": idx, "input": cut(&input)}));
                        }
                    }
                    drop(c);
                    if let Err(msg) = r {
                        fails.lock().unwrap().push(Fail { sub: s.name, index: idx, msg, input });
                    }
                }
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    let hang = 60_000u64;
    while done.load(Ordering::SeqCst) < nth {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for (b, j) in beat.iter() {
            let t = b.load(Ordering::SeqCst);
            if t != 0 && now > t + hang {
                let (k, idx) = jobs[j.load(Ordering::SeqCst) as usize];
                fails.lock().unwrap().push(Fail { sub: subs[k].name, index: idx, msg: format!("no answer after {} s (does not terminate)", hang / 1000), input: String::new() });
                write_out(out, &subs, &fails, &counts, &samples, seed, t0);
                std::process::exit(1);
            }
        }
    }
    let n = write_out(out, &subs, &fails, &counts, &samples, seed, t0);
    std::process::exit(if n > 0 { 1 } else { 0 });
}

fn write_out(out: &str, subs: &[Sub], fails: &Mutex<Vec<Fail>>, counts: &Mutex<HashMap<&'static str, (u64, u64, u64)>>, samples: &Mutex<Vec<serde_json::Value>>, seed: u64, t0: Instant) -> usize {
    let mut f = fails.lock().unwrap();
    f.sort_by_key(|x| x.index);
    let c = counts.lock().unwrap();
    let per: Vec<serde_json::Value> = subs
        .iter()
        .map(|s| {
            let e = c.get(s.name).copied().unwrap_or((0, 0, 0));
            serde_json::json!({"sub": s.name, "what": s.what, "evaluations": e.0, "distinct_nontrivial": e.1})
        })
        .collect();
    let j = serde_json::json!({
        "seed": seed,
        "wall_s": t0.elapsed().as_secs_f64(),
        "evaluations": c.values().map(|e| e.0).sum::<u64>(),
        "distinct_nontrivial": c.values().map(|e| e.1).sum::<u64>(),
        "subchecks": per,
        "samples": samples.lock().unwrap().clone(),
        "failures": f.iter().map(|x| serde_json::json!({"sub": x.sub, "index": x.index, "seed": seed, "message": x.msg, "input": x.input})).collect::<Vec<_>>(),
    });
    std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    for x in f.iter().take(12) {
        println!("FAIL {} #{}: {}\n   input: {}", x.sub, x.index, x.msg, cut(&x.input));
    }
    if out == "/dev/null" {
        for s in subs {
            let e = c.get(s.name).copied().unwrap_or((0, 0, 0));
            println!("{} {}: {} run, {} distinct nontrivial", s.prop, s.name, e.0, e.1);
        }
        println!("{:.1}s", t0.elapsed().as_secs_f64());
    }
    f.len()
}
