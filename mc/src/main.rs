//! Bounded-exhaustive explorer for the properties of maybe-dns.
//!   mc check <ID> <quick|thorough> --out FILE --replays DIR [--known KEY,KEY] [--threads N] [--limit S]
//!   mc replay FILE
#[macro_use]
mod engine;
mod bridge;
mod gen;
mod model;
mod props;
mod props_api;
mod props_val;
mod props_wire;
#[cfg(feature = "dnssec")]
mod props_sec;

use engine::*;
use std::collections::HashSet;
use std::sync::atomic::AtomicBool;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: Alloc = Alloc;

static OUT: Mutex<Option<String>> = Mutex::new(None);
/// A non-terminating or memory-exhausting execution: reported by the watchdog, the process ends.
pub fn hang_exit(run: &Run, harness: &str, why: &str) -> ! {
    let mut s = Stats::default();
    s.executions = 1;
    s.violations.push((harness.into(), vec![], why.into()));
    write_out(run, &s, &[], 0.0);
    std::process::exit(1)
}

/// What a property's function talks to: explores, or replays one recorded path.
pub struct H {
    pub run: Run,
    pub stats: Stats,
    pub names: Vec<String>,
    replay: Option<(String, Vec<u32>)>,
    replayed: Option<(Res, Vec<String>)>,
}
impl H {
    pub fn explore(&mut self, name: &str, body: &Body) {
        if let Some((n, p)) = &self.replay {
            if n == name {
                let (r, t, k) = self.run.replay(name, p.clone(), body);
                let r = match (r, k.iter().find(|(k, _)| !self.run.known_listed.contains(*k))) {
                    (Ok(()), Some((k, d))) => fail(format!("[{k}] {d}")),
                    (r, _) => r,
                };
                self.replayed = Some((r, t));
            }
            return;
        }
        if !self.stats.violations.is_empty() {
            return;
        }
        let s = self.run.explore(name, body);
        self.finish(name, s, |run, p| {
            let (r, t, _) = run.replay(name, p, body);
            (r, t)
        });
    }
    pub fn bfs<T: Clone + Send + Sync>(&mut self, name: &str, init: Vec<T>, nops: usize, depth: usize, step: &(dyn Fn(&T, usize, &mut Ctx) -> Result<Option<T>, Violation> + Sync), canon: &(dyn Fn(&T) -> u64 + Sync)) {
        if let Some((n, p)) = &self.replay {
            if n == name {
                self.replayed = Some(self.run.bfs_replay(init, p, step));
            }
            return;
        }
        if !self.stats.violations.is_empty() {
            return;
        }
        let i2 = init.clone();
        let s = self.run.bfs(name, init, nops, depth, step, canon);
        self.finish(name, s, |run, p| run.bfs_replay(i2.clone(), &p, step));
    }
    fn finish(&mut self, name: &str, s: Stats, replay: impl Fn(&Run, Vec<u32>) -> (Res, Vec<String>)) {
        if s.executions > 0 {
            self.names.push(format!("{name}: {} executions, {} states{}", s.executions, s.states, if s.capped { " (stopped at the time limit)" } else { "" }));
        }
        if let Some((h, p, m)) = s.violations.first() {
            let (r, t) = replay(&self.run, p.clone());
            let confirmed = match &r {
                Err(v) => v.0.clone(),
                Ok(()) => m.clone(),
            };
            let f = self.run.report(h, p, &confirmed, &t);
            println!("VIOLATION property={} replay={}", self.run.property, f);
            println!("  harness {name} [{}]: {}", self.run.config, bridge::short(&confirmed));
            for l in t.iter().take(12) {
                println!("  {}", bridge::short(l));
            }
        }
        self.stats.merge(s);
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn write_out(run: &Run, s: &Stats, names: &[String], wall: f64) {
    let Some(f) = OUT.lock().unwrap().clone() else { return };
    let list = |v: Vec<String>| v.join(",");
    let t = format!(
        "{{\"config\":{},\"executions\":{},\"steps\":{},\"states\":{},\"transitions\":{},\"max_depth\":{},\"capped\":{},\"wall\":{:.2},\"harnesses\":[{}],\"outcomes\":{{{}}},\"known\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
        js(&run.config),
        s.executions,
        s.steps,
        s.states,
        s.transitions,
        s.max_depth,
        s.capped,
        wall,
        list(names.iter().map(|x| js(x)).collect()),
        list(s.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect()),
        list(s.known.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, js(&bridge::short(&v.1)))).collect()),
        list(s.samples.iter().step_by((s.samples.len() / 8).max(1)).take(10).map(|x| js(&x.chars().take(900).collect::<String>())).collect()),
        list(s.violations.iter().take(3).map(|v| js(&format!("{}: {}", v.0, v.2))).collect()),
    );
    std::fs::write(f, t).expect("write stats");
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let config = format!("{}{}", if model::MDNS { "mdns" } else { "" }, if model::DNSSEC { if model::MDNS { "+dnssec" } else { "dnssec" } } else if model::MDNS { "" } else { "plain" });
    let known: HashSet<String> = opt("--known").map(|k| k.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()).unwrap_or_default();
    let threads = opt("--threads").and_then(|t| t.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let limit = opt("--limit").and_then(|t| t.parse().ok()).unwrap_or(600u64);
    let t0 = Instant::now();
    let mut run = Run {
        property: String::new(),
        thorough: false,
        threads,
        known_listed: known,
        deadline: t0 + Duration::from_secs(limit),
        replay_dir: opt("--replays").unwrap_or("/verif/replay".into()),
        config,
        only: opt("--only"),
        stop: AtomicBool::new(false),
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            run.property = a[2].clone();
            run.thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
            *OUT.lock().unwrap() = opt("--out");
            let mut h = H { run, stats: Stats::default(), names: vec![], replay: None, replayed: None };
            props::run(&mut h);
            let wall = t0.elapsed().as_secs_f64();
            write_out(&h.run, &h.stats, &h.names, wall);
            for (k, (n, d)) in &h.stats.known {
                println!("known {k} x{n}: {}", bridge::short(d));
            }
            eprintln!("{} [{}]: {} executions, {} states, {:.1}s", h.run.property, h.run.config, h.stats.executions, h.stats.states, wall);
            std::process::exit(if h.stats.violations.is_empty() { 0 } else { 1 });
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
            run.property = get("property");
            run.thorough = get("thorough") == "1";
            if get("config") != run.config {
                eprintln!("replay file is for configuration {}, this binary is {}", get("config"), run.config);
                std::process::exit(2);
            }
            let path = get("path").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("path")).collect();
            let mut h = H { run, stats: Stats::default(), names: vec![], replay: Some((get("harness"), path)), replayed: None };
            props::run(&mut h);
            match h.replayed {
                Some((r, t)) => {
                    for l in t {
                        println!("  {l}");
                    }
                    match r {
                        Ok(()) => println!("replay: property holds on this execution"),
                        Err(v) => {
                            println!("replay: VIOLATED: {}", v.0);
                            std::process::exit(1)
                        }
                    }
                }
                None => {
                    eprintln!("no such harness");
                    std::process::exit(2)
                }
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> <tier> | mc replay <file>");
            std::process::exit(2)
        }
    }
}
