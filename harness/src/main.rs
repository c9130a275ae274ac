#![allow(dead_code, unused_imports, unused_variables)]
mod core;
mod arith;
mod interp;
mod curves;
mod lookup;
mod aggs;
mod thresholds;
mod variables;
mod vs;
mod lpnet;
mod netw;
mod times;
mod profiles;
mod recorders;
mod scenarios;
mod assembly;
mod memory;
mod routing;
mod order;

use crate::core::*;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type CaseFn = fn(&mut Rng, &mut Log) -> Res;

fn checks(name: &str) -> Option<Vec<(&'static str, CaseFn)>> {
    Some(match name {
        "C09" => interp::CASES.to_vec(),
        "C01" => lpnet::BALANCE.to_vec(),
        "C14" => lpnet::FACTORS.to_vec(),
        "C15" => lpnet::EXCLUSIVE.to_vec(),
        "C02" => netw::VOLUMES.to_vec(),
        "C03" => netw::FLOWS.to_vec(),
        "C13" => netw::BOUNDS.to_vec(),
        "C24" => netw::INITIAL.to_vec(),
        "C25" => netw::METRICS.to_vec(),
        "C12" => vs::CASES.to_vec(),
        "C21" => variables::CASES.to_vec(),
        "C16" => arith::CASES.to_vec(),
        "C10" => curves::CASES.to_vec(),
        "C11" => thresholds::CASES.to_vec(),
        "C17" => lookup::CASES.to_vec(),
        "C06" => scenarios::CASES.to_vec(),
        "C19" => recorders::CASES.to_vec(),
        "C05" => profiles::CASES.to_vec(),
        "C04" => times::CASES.to_vec(),
        "C07" => memory::CASES.to_vec(),
        "C22" => assembly::CASES.to_vec(),
        "C18" => order::CASES.to_vec(),
        "C20" => routing::CASES.to_vec(),
        "C08" => aggs::CASES.to_vec(),
        _ => return None,
    })
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn one(f: CaseFn, seed: u64, log: &mut Log) -> Res {
    let mut rng = Rng(seed);
    match catch_unwind(AssertUnwindSafe(|| f(&mut rng, log))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panicked: {m}"))
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let prop = args.get(1).cloned().unwrap_or_default();
    let Some(cs) = checks(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    };
    if args.iter().any(|a| a == "--case") {
        // replay: --group NAME --case SEED
        let g = get("--group", "");
        let seed: u64 = get("--case", "0").parse().unwrap();
        let Some((_, f)) = cs.iter().find(|(n, _)| *n == g) else { std::process::exit(2) };
        let mut log = Log(String::new());
        let r = one(*f, seed, &mut log);
        println!("{}", log.0);
        match r {
            Ok(_) => println!("case holds"),
            Err(e) => {
                println!("CONTRACT VIOLATED: {e}");
                std::process::exit(1)
            }
        }
        return;
    }
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "8").parse().unwrap();
    let known: Vec<String> = get("--known", "").split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let nthreads: usize = get("--threads", "8").parse().unwrap();
    let start = Instant::now();
    let deadline = start + Duration::from_secs_f64(secs);
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    struct Shared {
        cases: Vec<u64>,
        nontrivial: Vec<u64>,
        samples: Vec<String>,
        fail: Option<(String, u64, String, String)>,
        known_hits: Vec<u64>,
        running: Vec<Option<(Instant, String, u64)>>,
    }
    let sh = Arc::new(Mutex::new(Shared {
        cases: vec![0; cs.len()],
        nontrivial: vec![0; cs.len()],
        samples: vec![],
        fail: None,
        known_hits: vec![0; known.len()],
        running: vec![None; nthreads],
    }));
    let mut hs = vec![];
    for th in 0..nthreads {
        let (sh, stop, next, cs, known) = (sh.clone(), stop.clone(), next.clone(), cs.clone(), known.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let g = (i as usize) % cs.len();
                        let cseed = mix(seed, i);
                        sh.lock().unwrap().running[th] = Some((Instant::now(), cs[g].0.to_string(), cseed));
                        let mut log = Log(String::new());
                        let r = one(cs[g].1, cseed, &mut log);
                        let mut s = sh.lock().unwrap();
                        s.running[th] = None;
                        s.cases[g] += 1;
                        match r {
                            Ok(nt) => {
                                if nt {
                                    s.nontrivial[g] += 1;
                                    if s.nontrivial[g] <= 1 && s.samples.len() < 12 {
                                        let t = format!("[{} case {}] {}", cs[g].0, cseed, log.0.trim());
                                        s.samples.push(t.chars().take(900).collect());
                                    }
                                }
                            }
                            Err(e) => {
                                if let Some(k) = known.iter().position(|k| e.starts_with(&format!("KNOWN[{k}]"))) {
                                    s.known_hits[k] += 1;
                                } else if s.fail.is_none() {
                                    s.fail = Some((cs[g].0.to_string(), cseed, e, log.0));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let mut s = sh.lock().unwrap();
        let hung = s.running.iter().flatten().find(|(t, _, _)| t.elapsed() > Duration::from_secs(60)).cloned();
        if let Some((_, g, c)) = hung {
            // the linear programming solvers are not under test: one that does not end is no verdict
            if s.fail.is_none() && !["solved networks", "factors", "mutual exclusivity"].contains(&g.as_str()) {
                s.fail = Some((g, c, "the case did not finish within 60 s".into(), String::new()));
            }
            break;
        }
    }
    let s = sh.lock().unwrap();
    let fail = match &s.fail {
        None => "null".to_string(),
        Some((g, c, e, l)) => {
            format!("{{\"group\":{},\"case\":{},\"message\":{},\"log\":{}}}", esc(g), c, esc(e), esc(l))
        }
    };
    let groups: Vec<String> = cs
        .iter()
        .enumerate()
        .map(|(i, (n, _))| format!("{{\"group\":{},\"cases\":{},\"nontrivial\":{}}}", esc(n), s.cases[i], s.nontrivial[i]))
        .collect();
    println!(
        "{{\"cases\":{},\"nontrivial\":{},\"groups\":[{}],\"samples\":[{}],\"known_hits\":[{}],\"fail\":{}}}",
        s.cases.iter().sum::<u64>(),
        s.nontrivial.iter().sum::<u64>(),
        groups.join(","),
        s.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
        s.known_hits.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        fail
    );
    std::process::exit(if s.fail.is_some() { 1 } else { 0 });
}
