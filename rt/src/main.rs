//! rt: executes the contracts of the listed properties on the real crate.
//!   rt run PROP SEED SCALE MAXWALL_MS OUT.json REPLAYDIR KNOWN.json [CONTRACT-ID ...]
//!   rt replay FILE
mod core;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p20;
mod p21;
use crate::core::*;
use serde_json::{json, Value};
use std::time::Duration;

fn contracts(p: &str) -> Vec<C> {
    match p {
        "P01" => p01::contracts(),
        "P02" => p02::contracts(),
        "P03" => p03::contracts(),
        "P04" => p04::contracts(),
        "P05" => p05::contracts(),
        "P06" => p06::contracts(),
        "P07" => p07::contracts(),
        "P08" => p08::contracts(),
        "P09" => p09::contracts(),
        "P10" => p10::contracts(),
        "P11" => p11::contracts(),
        "P12" => p12::contracts(),
        "P13" => p13::contracts(),
        "P14" => p14::contracts(),
        "P15" => p15::contracts(),
        "P16" => p16::contracts(),
        "P17" => p17::contracts(),
        "P18" => p18::contracts(),
        "P19" => p19::contracts(),
        "P20" => p20::contracts(),
        "P21" => p21::contracts(),
        _ => {
            eprintln!("no contracts for {}", p);
            std::process::exit(2)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = &a[2];
            let seed: u64 = a[3].parse().unwrap();
            let scale: u64 = a[4].parse().unwrap();
            let wall = Duration::from_millis(a[5].parse().unwrap());
            let known: Value = serde_json::from_str(&std::fs::read_to_string(&a[8]).unwrap_or_else(|_| "[]".into())).unwrap_or(json!([]));
            let only: Vec<&String> = a.iter().skip(9).collect();
            let cs: Vec<C> = contracts(prop).into_iter().filter(|c| only.is_empty() || only.iter().any(|o| o.as_str() == c.id)).collect();
            // contracts are independent: run them on all cores
            let results = std::sync::Mutex::new(vec![]);
            let next = std::sync::atomic::AtomicUsize::new(0);
            let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
            let slots: Vec<Slot> = (0..n).map(|_| Slot::new(None)).collect();
            let stop = std::sync::atomic::AtomicBool::new(false);
            let left = std::sync::atomic::AtomicUsize::new(n);
            std::thread::scope(|sc| {
                // a case that does not end is reported as a failure of its contract
                sc.spawn(|| while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(100));
                    if left.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                        break;
                    }
                    for sl in &slots {
                        let g = sl.lock().unwrap();
                        if let Some((id, since, cseed, data)) = &*g {
                            if since.elapsed() > Duration::from_secs(30) {
                                let path = format!("{}/{}-{}.json", a[7], prop, id.replace(['/', ' '], "_"));
                                let body = json!({"property": prop, "contract": id, "failure": "the call did not return within 30 s", "case_seed": cseed, "choices": data});
                                std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
                                std::fs::write(&a[6], serde_json::to_string_pretty(&json!({"property": prop, "seed": seed, "contracts": [], "replays": [{"path": path, "contract": id, "failure": "the call did not return within 30 s"}]})).unwrap()).unwrap();
                                std::process::exit(0);
                            }
                        }
                    }
                });
                for w in 0..n {
                    let slot = &slots[w];
                    let (next, left, cs, results, known) = (&next, &left, &cs, &results, &known);
                    sc.spawn(move || loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= cs.len() {
                            left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                            break;
                        }
                        let c = cs[i];
                        let is_known = |d: &str| {
                            known.as_array().map_or(false, |k| k.iter().any(|e| e["property"] == **prop && e["contract"] == c.id && e["kind"] == "finding" && e["failure"].as_str().map_or(false, |f| f == d)))
                        };
                        let o = run(&c, slot, seed, scale, wall, &is_known);
                        let mut fails = vec![];
                        for f in &o.fail {
                            fails.push(json!({"detail": f.detail, "known": is_known(&f.detail), "notes": f.notes, "choices": f.choices}));
                        }
                        results.lock().unwrap().push((i, json!({"id": c.id, "clause": c.clause, "cases": o.cases, "distinct": o.distinct, "samples": o.samples, "exhaustive": o.exhaustive, "wall_ms": o.wall.as_millis() as u64, "fails": fails})));
                    });
                }
            });
            let mut rs = results.into_inner().unwrap();
            rs.sort_by_key(|r| r.0);
            let rs: Vec<Value> = rs.into_iter().map(|r| r.1).collect();
            let mut replays = vec![];
            for r in &rs {
                for f in r["fails"].as_array().unwrap() {
                    if f["known"] == true {
                        continue;
                    }
                    let path = format!("{}/{}-{}.json", a[7], prop, r["id"].as_str().unwrap().replace(['/', ' '], "_"));
                    let body = json!({"property": prop, "contract": r["id"], "clause": r["clause"], "failure": f["detail"], "input": f["notes"], "choices": f["choices"], "replay_with": format!("rt replay {}", path)});
                    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
                    replays.push(json!({"path": path, "contract": r["id"], "failure": f["detail"]}));
                }
            }
            std::fs::write(&a[6], serde_json::to_string_pretty(&json!({"property": prop, "seed": seed, "contracts": rs, "replays": replays})).unwrap()).unwrap();
        }
        Some("list") => {
            let v: Vec<&str> = contracts(&a[2]).iter().map(|c| c.id).collect();
            println!("{}", serde_json::to_string(&v).unwrap());
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let prop = v["property"].as_str().unwrap();
            let id = v["contract"].as_str().unwrap();
            let c = contracts(prop).into_iter().find(|c| c.id == id).expect("contract");
            let mut s = Src::random(v["case_seed"].as_u64().unwrap_or(0));
            let data: Vec<(u64, u64)> = v["choices"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap())).collect();
            if v["case_seed"].as_u64().is_none() {
                s = Src::replay(data);
            }
            let r = run_once(&c, &mut s);
            for n in &s.notes {
                println!("input: {}", n);
            }
            match r {
                Ok(()) => println!("contract {} holds on this input", id),
                Err(d) => {
                    println!("contract {} broken: {}", id, d);
                    std::process::exit(1)
                }
            }
        }
        _ => std::process::exit(2),
    }
}
