//! Runs a property over generated cases in isolated worker processes, shrinks
//! failures, writes replay files and evidence.
use crate::gen::{mix, Gen};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// A violated property. `key` names the kind of failure (call site or history
/// class); known findings are matched on it.
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(key: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}
pub fn bad(key: &str, msg: impl Into<String>) -> Fail {
    Fail { key: key.into(), msg: msg.into() }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($m:tt)*) => {
        if !$c { return $crate::engine::fail(&$key.to_string(), format!($($m)*)); }
    };
}

#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub tracing: bool,
    pub trace: Vec<String>,
}
impl Cx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_default() += 1;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    /// marks the case as non-trivial by the property's rule
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    /// run deterministically once per check, before the random cases
    pub fixed: Option<fn(&mut Cx) -> R>,
    pub run: fn(&mut Gen, &mut Cx) -> R,
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn quiet_catch<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn std::any::Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}
/// Some(value) or None when the code panicked (an abort on chain).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    quiet_catch(f).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn run_case(p: &Prop, g: &mut Gen, cx: &mut Cx) -> R {
    match quiet_catch(|| (p.run)(g, cx)) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            let first = m.lines().next().unwrap_or("").to_string();
            fail("panic", format!("uncaught panic: {} {}", first, m))
        }
    }
}

fn shrink(p: &Prop, tape: Vec<u64>, key: &str, budget: Duration, eval: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let _ = (p, key);
    let end = Instant::now() + budget;
    let mut best = tape;
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > end {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                if eval(&c) {
                    best = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        for i in 0..best.len() {
            if best[i] == 0 {
                continue;
            }
            if Instant::now() > end {
                return best;
            }
            let mut c = best.clone();
            c[i] = 0;
            if eval(&c) {
                best = c;
                continue;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while hi - lo > 1 {
                if Instant::now() > end {
                    return best;
                }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if eval(&c) {
                    best = c;
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
        }
        if best == before {
            return best;
        }
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut h = mix(seed ^ 0x5157);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ i.wrapping_mul(0x9E37))
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn tape_str(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

/// `property<TAB>key` of every open finding.
fn known() -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            // known: property=<id> key=<key> <what>
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let id = it.next().unwrap_or("").to_string();
                let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                let what = it.next().unwrap_or("").to_string();
                v.push((id, key, what));
            }
        }
    }
    v
}

fn write_replay(p: &Prop, tape: &[u64], f: &Fail, trace: &[String]) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = 0;
    for x in tape {
        h = mix(h ^ x);
    }
    let path = dir.join(format!("{}-{:08x}.txt", p.id, h as u32));
    let mut s = String::new();
    s.push_str(&format!("property: {}\nkey: {}\ntape: {}\n", p.id, f.key, tape_str(tape)));
    s.push_str("# replay with: /verif/check.sh replay <this file>\n");
    s.push_str(&format!("# {}\n", f.msg.replace('\n', "\n# ")));
    for t in trace {
        s.push_str(&format!("# {}\n", t.replace('\n', "\n#   ")));
    }
    let _ = std::fs::write(&path, s);
    path
}

/// Worker process: cases start, start+step, ... < total.
pub fn worker(p: &Prop, seed: u64, start: u64, step: u64, total: u64, dir: &Path) -> i32 {
    install_hook();
    let st = std::fs::File::create(dir.join(format!("cur{start}"))).unwrap();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut out = String::new();
    let known = known();
    let mut evals = 0u64;
    let mut samples = 0;
    let mut i = start;
    let mut violated = false;
    use std::os::unix::fs::FileExt;
    if start == 0 {
        if let Some(fx) = p.fixed {
            let _ = st.write_at(&u64::MAX.to_le_bytes(), 0);
            let mut cx = Cx { tracing: true, ..Default::default() };
            let r = match quiet_catch(|| fx(&mut cx)) {
                Ok(r) => r,
                Err(_) => fail("panic", PANIC.with(|p| p.borrow().clone())),
            };
            for (k, v) in cx.labels {
                *labels.entry(k).or_default() += v;
            }
            if let Err(f) = r {
                if known.iter().any(|(id, k, _)| id == p.id && *k == f.key) {
                    out.push_str(&format!("known\t{}\n", f.key));
                } else {
                    let path = write_replay(p, &[], &f, &cx.trace);
                    out.push_str(&format!("violation\t{}\t{}\t{}\n", path.display(), f.key, f.msg.replace(['\n', '\t'], " ")));
                    violated = true;
                }
            }
        }
    }
    while i < total && !violated {
        let _ = st.write_at(&i.to_le_bytes(), 0);
        let mut g = Gen::random(case_seed(seed, p.id, i));
        let mut cx = Cx::default();
        let r = run_case(p, &mut g, &mut cx);
        evals += 1;
        for (k, v) in &cx.labels {
            *labels.entry(k.clone()).or_default() += v;
        }
        if cx.nontrivial {
            let mut h = 7;
            for x in &g.tape {
                h = mix(h ^ x);
            }
            seen.insert(h);
            if samples < 2 && r.is_ok() {
                let mut cx2 = Cx { tracing: true, ..Default::default() };
                let mut g2 = Gen::replay(g.tape.clone());
                let _ = run_case(p, &mut g2, &mut cx2);
                if !cx2.trace.is_empty() {
                    samples += 1;
                    let mut s = cx2.trace.join(" ; ");
                    if s.len() > 1500 {
                        let mut n = 1500;
                        while !s.is_char_boundary(n) {
                            n -= 1;
                        }
                        s.truncate(n);
                    }
                    out.push_str(&format!("sample\t{}\n", s.replace(['\n', '\t'], " ")));
                }
            }
        }
        if let Err(f) = r {
            if known.iter().any(|(id, k, _)| id == p.id && *k == f.key) {
                out.push_str(&format!("known\t{}\n", f.key));
            } else {
                let key = f.key.clone();
                let mut ev = |t: &[u64]| {
                    let mut g = Gen::replay(t.to_vec());
                    let mut cx = Cx::default();
                    matches!(run_case(p, &mut g, &mut cx), Err(f) if f.key == key)
                };
                let best = shrink(p, g.tape.clone(), &key, Duration::from_secs(25), &mut ev);
                let mut cx2 = Cx { tracing: true, ..Default::default() };
                let mut g2 = Gen::replay(best.clone());
                let f2 = run_case(p, &mut g2, &mut cx2).err().unwrap_or(f);
                let path = write_replay(p, &best, &f2, &cx2.trace);
                out.push_str(&format!("violation\t{}\t{}\t{}\n", path.display(), f2.key, f2.msg.replace(['\n', '\t'], " ")));
                violated = true;
            }
        }
        i += step;
    }
    out.push_str(&format!("evals\t{evals}\n"));
    for (k, v) in &labels {
        out.push_str(&format!("label\t{k}\t{v}\n"));
    }
    let mut hs = Vec::new();
    for h in &seen {
        hs.extend(h.to_le_bytes());
    }
    let _ = std::fs::write(dir.join(format!("hash{start}")), hs);
    let _ = std::fs::write(dir.join(format!("out{start}")), out);
    0
}

/// One tape in its own process: exit 0 ok, 1 fails, killed by a signal: crash.
pub fn one(p: &Prop, tape: Vec<u64>, verbose: bool) -> i32 {
    install_hook();
    let mut cx = Cx { tracing: verbose, ..Default::default() };
    let mut g = Gen::replay(tape);
    let r = run_case(p, &mut g, &mut cx);
    if verbose {
        for t in &cx.trace {
            println!("{t}");
        }
    }
    match r {
        Ok(()) => {
            if verbose {
                println!("property {} holds on this case", p.id)
            }
            0
        }
        Err(f) => {
            if verbose {
                println!("property {} FAILS [{}]: {}", p.id, f.key, f.msg)
            }
            1
        }
    }
}

pub fn check(p: &Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("swigpbt-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    // the counts in the properties are for a first look
    let mut total = if tier == "thorough" { p.thorough * 10 } else { p.quick * 3 };
    if let Some(n) = std::env::var("VERIF_PERCENT").ok().and_then(|s| s.parse::<u64>().ok()) {
        total = (total * n / 100).max(1);
    }
    if let Ok(n) = std::env::var("VERIF_CASES") {
        total = n.parse().unwrap_or(total);
    }
    let jobs: u64 = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 780 });
    let mut kids: Vec<(u64, std::process::Child)> = (0..jobs)
        .map(|w| {
            let c = std::process::Command::new(&exe)
                .args(["worker", p.id, &seed.to_string(), &w.to_string(), &jobs.to_string(), &total.to_string()])
                .arg(&dir)
                .spawn()
                .unwrap();
            (w, c)
        })
        .collect();
    let mut crashed: Vec<(u64, i32)> = vec![];
    let mut seen_at: BTreeMap<u64, (Vec<u8>, Instant)> = BTreeMap::new();
    let mut hung = None;
    let mut error = None;
    let mut stop = false;
    while !kids.is_empty() {
        let mut rest = vec![];
        for (w, mut c) in kids {
            match c.try_wait().unwrap() {
                None => {
                    let cur = std::fs::read(dir.join(format!("cur{w}"))).unwrap_or_default();
                    let e = seen_at.entry(w).or_insert_with(|| (cur.clone(), Instant::now()));
                    if e.0 != cur {
                        *e = (cur, Instant::now());
                    } else if e.1.elapsed() > Duration::from_secs(120) {
                        hung = Some(w);
                        stop = true;
                    }
                    rest.push((w, c))
                }
                Some(s) => {
                    use std::os::unix::process::ExitStatusExt;
                    if let Some(sig) = s.signal() {
                        if sig == 9 || sig == 15 {
                            error = Some(format!("worker {w} ended by signal {sig}"));
                        } else {
                            crashed.push((w, sig));
                        }
                        stop = true;
                    } else if !s.success() {
                        error = Some(format!("worker {w} exit {s}"));
                        stop = true;
                    } else if let Ok(o) = std::fs::read_to_string(dir.join(format!("out{w}"))) {
                        if o.contains("violation\t") {
                            stop = true;
                        }
                    }
                }
            }
        }
        kids = rest;
        if t0.elapsed() > limit {
            error = Some("time limit".into());
            stop = true;
        }
        if stop {
            for (_, c) in kids.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut evals = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    let mut viol: Vec<(String, String, String)> = vec![];
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    for w in 0..jobs {
        if let Ok(h) = std::fs::read(dir.join(format!("hash{w}"))) {
            for c in h.chunks_exact(8) {
                seen.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        let Ok(o) = std::fs::read_to_string(dir.join(format!("out{w}"))) else { continue };
        for l in o.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "evals" => evals += f[1].parse::<u64>().unwrap(),
                "label" => *labels.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
                "sample" => samples.push(f[1].into()),
                "known" => *hits.entry(f[1].into()).or_default() += 1,
                "violation" => viol.push((f[1].into(), f[2].into(), f[3].into())),
                _ => {}
            }
        }
    }
    if let (Some(w), true) = (hung, viol.is_empty() && crashed.is_empty()) {
        let cur = std::fs::read(dir.join(format!("cur{w}"))).unwrap_or_default();
        let i = cur.get(..8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).unwrap_or(u64::MAX);
        let rec = dir.join("rec");
        let mut tape = vec![];
        if i != u64::MAX {
            if let Ok(mut c) = std::process::Command::new(&exe)
                .args(["record", p.id, &case_seed(seed, p.id, i).to_string()])
                .arg(&rec)
                .stderr(std::process::Stdio::null())
                .spawn()
            {
                std::thread::sleep(Duration::from_secs(5));
                let _ = c.kill();
                let _ = c.wait();
            }
            tape = std::fs::read(&rec).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        }
        let f = Fail { key: "hang".into(), msg: format!("case {i} did not end within 120 s") };
        let path = write_replay(p, &tape, &f, &[]);
        viol.push((path.display().to_string(), f.key, f.msg));
    }
    // crashes: find the case, shrink it in subprocesses
    for (w, sig) in crashed {
        let cur = std::fs::read(dir.join(format!("cur{w}"))).unwrap_or_default();
        if cur.len() < 8 {
            error = Some(format!("worker {w} crashed before its first case (signal {sig})"));
            continue;
        }
        let i = u64::from_le_bytes(cur[..8].try_into().unwrap());
        let tf = dir.join("tape");
        let run = |t: &[u64]| -> Option<i32> {
            use std::os::unix::process::ExitStatusExt;
            std::fs::write(&tf, tape_str(t)).unwrap();
            std::process::Command::new(&exe)
                .args(["one", p.id])
                .arg(&tf)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .ok()?
                .signal()
        };
        let mut tape = vec![];
        if i != u64::MAX {
            // record the tape in a child: it is written before the crash
            let rec = dir.join("rec");
            let _ = std::process::Command::new(&exe)
                .args(["record", p.id, &case_seed(seed, p.id, i).to_string()])
                .arg(&rec)
                .stderr(std::process::Stdio::null())
                .status();
            let n = std::fs::metadata(&rec).map(|m| m.len()).unwrap_or(0);
            let raw = std::fs::read(&rec).unwrap_or_default();
            let _ = n;
            tape = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            if run(&tape).is_some() {
                tape = shrink(p, tape, "crash", Duration::from_secs(30), &mut |t| run(t).is_some());
            }
        }
        let f = Fail { key: "crash".into(), msg: format!("the process died with signal {sig} (case {i})") };
        let path = write_replay(p, &tape, &f, &[]);
        viol.push((path.display().to_string(), f.key, f.msg));
        evals += 1;
    }
    let _ = std::fs::remove_dir_all(&dir);
    // evidence
    samples.truncate(6);
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"classes\": {{{}}},\n  \"known_finding_hits\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        p.id,
        if tier == "thorough" { "thorough" } else { "quick" },
        seed,
        evals,
        seen.len(),
        esc(p.rule),
        labels.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        hits.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",\n   "),
        p.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        viol.len()
    );
    let ed = root().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    let _ = std::fs::write(ed.join(format!("{}.json", p.id)), ev);
    let mut so = std::io::stdout();
    let _ = writeln!(so, "{}: {} cases, {} distinct non-trivial, {:.1}s", p.id, evals, seen.len(), t0.elapsed().as_secs_f64());
    for (k, v) in &labels {
        let _ = writeln!(so, "  {k}: {v}");
    }
    for (id, key, what) in known() {
        if id == p.id && hits.contains_key(&key) {
            let _ = writeln!(so, "KNOWN-FINDING: property={id} key={key} {what}");
        }
    }
    if !viol.is_empty() {
        for (path, key, msg) in &viol {
            let _ = writeln!(so, "[{key}] {msg}");
            let _ = writeln!(so, "VIOLATION property={} replay={}", p.id, path);
        }
        return 1;
    }
    if let Some(e) = error {
        let _ = writeln!(so, "ERROR: {e}");
        return 2;
    }
    0
}

/// Records the tape of a crashing case: choices go to a file as they are made.
pub fn record(p: &Prop, cseed: u64, path: &Path) -> i32 {
    install_hook();
    crate::gen::RECORD.with(|r| *r.borrow_mut() = std::fs::File::create(path).ok());
    let mut g = Gen::random(cseed);
    let mut cx = Cx::default();
    let _ = run_case(p, &mut g, &mut cx);
    0
}
pub fn one_fixed(p: &Prop) -> i32 {
    install_hook();
    let mut cx = Cx { tracing: true, ..Default::default() };
    let r = match quiet_catch(|| (p.fixed.unwrap())(&mut cx)) {
        Ok(r) => r,
        Err(_) => fail("panic", PANIC.with(|p| p.borrow().clone())),
    };
    for t in &cx.trace {
        println!("{t}");
    }
    match r {
        Ok(()) => {
            println!("property {} holds on its fixed cases", p.id);
            0
        }
        Err(f) => {
            println!("property {} FAILS [{}]: {}", p.id, f.key, f.msg);
            1
        }
    }
}
