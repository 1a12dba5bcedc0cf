#![allow(dead_code)]
mod engine;
mod gen;
mod img;
mod keccak;
#[macro_use]
mod util;
mod props;
mod sdk;
mod vm;

use std::path::PathBuf;

fn tape(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let all = props::all();
    let find = |id: &str| match all.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        }
    };
    let code = match a.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &all {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        Some("check") => {
            let tier = a.get(2).map(|s| s.as_str()).unwrap_or("quick");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            engine::check(find(&a[1]), tier, seed)
        }
        Some("worker") => engine::worker(
            find(&a[1]),
            a[2].parse().unwrap(),
            a[3].parse().unwrap(),
            a[4].parse().unwrap(),
            a[5].parse().unwrap(),
            &PathBuf::from(&a[6]),
        ),
        Some("one") => {
            let t = tape(&std::fs::read_to_string(&a[2]).unwrap());
            engine::one(find(&a[1]), t, false)
        }
        Some("record") => engine::record(find(&a[1]), a[2].parse().unwrap(), &PathBuf::from(&a[3])),
        Some("replay") => {
            let s = std::fs::read_to_string(&a[1]).unwrap();
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
            let p = find(&get("property:"));
            if get("tape:").is_empty() && p.fixed.is_some() {
                engine::one_fixed(p)
            } else {
                engine::one(p, tape(&get("tape:")), true)
            }
        }
        _ => {
            eprintln!("usage: swigpbt list | check ID quick|thorough | replay FILE");
            2
        }
    };
    std::process::exit(code)
}
