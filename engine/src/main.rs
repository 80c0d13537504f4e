//! vexec: bounded symbolic execution of an LLVM IR module.
//!
//!   vexec MODULE.ll --entry FN [--out FILE] [--jobs N] [--timeout S]
//!         [--max-steps N] [--keep-going] [--log] [--replay HEX]
//!
//! All paths of FN are explored. The result file gets one JSON object per
//! worker process, which the caller merges.

mod exec;
mod expr;
mod ext;
mod kernel;
mod ll;
mod mem;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[repr(C)]
struct Shared {
    active: AtomicI64,
    stop: AtomicI64,
    paths: AtomicU64,
}

struct Found {
    kind: &'static str,
    what: String,
    model: Vec<u8>,
    notes: Vec<String>,
    trace: String,
    count: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut module = String::new();
    let (mut entry, mut out) = (String::from("main"), String::new());
    let mut jobs = 1i64;
    let mut timeout = 1e9;
    let mut max_steps = 2_000_000_000u64;
    let mut keep = false;
    let mut log = false;
    let mut trace = false;
    let mut prof = false;
    let mut replay: Option<Vec<u8>> = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--entry" => entry = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--jobs" => jobs = args.next().unwrap().parse().unwrap(),
            "--timeout" => timeout = args.next().unwrap().parse().unwrap(),
            "--max-steps" => max_steps = args.next().unwrap().parse().unwrap(),
            "--keep-going" => keep = true,
            "--log" => log = true,
            "--trace" => trace = true,
            "--profile" => prof = true,
            "--replay" => {
                let h = args.next().unwrap();
                replay = Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect());
            }
            _ => module = a,
        }
    }
    let start = Instant::now();
    let deadline = start + Duration::from_secs_f64(timeout);
    let m = ll::Module::load(&module);
    let mut ex = Exec::new(m);
    ex.crash_log = log;
    ex.trace_calls = trace;
    if prof {
        ex.profile = Some(Default::default());
    }
    ex.max_steps = max_steps;
    ex.quantum = 2_000_000;
    ex.replay = replay;
    let st = ex.initial(&entry);
    let sh: &Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.active.store(1, SeqCst);

    let mut work: Vec<State> = vec![st];
    let mut found: BTreeMap<String, Found> = BTreeMap::new();
    let mut covers: BTreeMap<u32, u64> = BTreeMap::new();
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    let mut children: Vec<i32> = vec![];
    let mut is_child = false;
    let mut dropped = 0u64;
    let mut confirmed = 0u64;
    let mut crashed_child = 0u64;
    let mut samples: Vec<(Vec<u8>, Vec<String>)> = vec![];
    while let Some(mut st) = work.pop() {
        if Instant::now() > deadline || sh.stop.load(SeqCst) != 0 {
            dropped += 1 + work.len() as u64;
            work.clear();
            break;
        }
        let r = ex.run(&mut st);
        let mut ended = true;
        let mut report: Option<(&'static str, String, Vec<u8>, String)> = None;
        let rnotes = st.notes.clone();
        match r {
            Stop::Fork { c, mt, mf } => {
                ended = false;
                ex.stats.forks += 1;
                let mut other = st.fork();
                st.depth += 1;
                other.depth += 1;
                let nc = ex.x.not(c);
                if let Some(m) = mt {
                    st.model = m;
                }
                if let Some(m) = mf {
                    other.model = m;
                }
                let a = ex.assume(&mut st, c);
                let b = ex.assume(&mut other, nc);
                if a {
                    work.push(st);
                }
                if b {
                    work.push(other);
                }
                if !a || !b {
                    report = None;
                    dropped += 1; // cannot happen: both sides have models
                }
            }
            Stop::Switch | Stop::Block { .. } => {
                ended = false;
                work.push(st);
            }
            Stop::Infeasible => {
                ex.stats.pruned += 1;
                ended = false;
            }
            Stop::Done => {
                // the solver confirms the condition of the completed path
                match ex.confirm(&st) {
                    Some(m) => {
                        confirmed += 1;
                        // a few completed paths, spread out, for native runs
                        let k = confirmed;
                        if samples.len() < 6 && (k & (k - 1)) == 0 {
                            let ns = st.notes.iter().map(|n| ex.show(n, &m)).collect();
                            samples.push((m, ns));
                        }
                    }
                    _ => report = Some(("error", "path condition not confirmed".into(), st.model.clone(), String::new())),
                }
                for n in st.notes.iter().filter(|n| n.starts_with(&[(b'K', 0), (b'N', 0), (b'O', 0), (b'W', 0), (b'N', 0)])) {
                    *notes.entry(ex.show(n, &[])).or_insert(0) += 1;
                }
                finish(&st, &mut covers);
            }
            Stop::Panic(s) => {
                let (a, b) = split(&s);
                report = Some(("panic", a, st.model.clone(), b));
            }
            Stop::Hang(s) => {
                let (a, b) = split(&s);
                report = Some(("hang", a, st.model.clone(), b));
            }
            Stop::Error(s) => {
                let (a, mut b) = split(&s);
                if b.is_empty() {
                    b = ex.stack_trace(&st);
                }
                report = Some(("error", a, st.model.clone(), b));
            }
            Stop::Violation { what, model } => {
                let b = ex.stack_trace(&st);
                report = Some(("assert", what, model, b));
            }
        }
        if ended {
            ex.stats.paths += 1;
            sh.paths.fetch_add(1, SeqCst);
        }
        if let Some((kind, what, model, tr)) = report {
            if log {
                eprintln!("{} {}{}", kind, what, tr);
            }
            let key = format!("{}:{}", kind, what);
            let shown: Vec<String> = rnotes.iter().map(|n| ex.show(n, &model)).collect();
            let f = found.entry(key).or_insert(Found {
                kind,
                what,
                model,
                notes: shown,
                trace: tr,
                count: 0,
            });
            f.count += 1;
            if !keep {
                sh.stop.store(1, SeqCst);
            }
        }
        // hand half of the pending states to a new process
        if work.len() >= 2 && sh.active.load(SeqCst) < jobs {
            if sh.active.fetch_add(1, SeqCst) >= jobs {
                sh.active.fetch_sub(1, SeqCst);
                continue;
            }
            let half = work.len() / 2;
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0) };
                is_child = true;
                work.truncate(half.max(1));
                found.clear();
                covers.clear();
                notes.clear();
                samples.clear();
                children.clear();
                dropped = 0;
                confirmed = 0;
                ex.stats = Stats::default();
                ex.z.reset_stats();
            } else if pid > 0 {
                children.push(pid);
                work.drain(..half.max(1));
            } else {
                sh.active.fetch_sub(1, SeqCst);
            }
        }
    }
    sh.active.fetch_sub(1, SeqCst);
    for c in &children {
        let mut s = 0;
        unsafe { waitpid(*c, &mut s, 0) };
        if s != 0 {
            crashed_child += 1;
        }
    }
    let s = &ex.stats;
    let mut j = String::from("{");
    j.push_str(&format!(
        "\"root\":{},\"steps\":{},\"forks\":{},\"paths\":{},\"pruned\":{},\"confirmed\":{},\"asserts\":{},\"assert_queries\":{},\"queries\":{},\"solver_ms\":{},\"cache_hits\":{},\"domain_decisions\":{},\"dropped\":{},\"crashed_workers\":{},\"wall_ms\":{}",
        !is_child, s.steps, s.forks, s.paths, s.pruned, confirmed, s.asserts, s.assert_queries, ex.z.queries, ex.z.time_ms(), s.solver_cache, s.domain_decisions, dropped, crashed_child, start.elapsed().as_millis()
    ));
    j.push_str(",\"found\":[");
    for (i, f) in found.values().enumerate() {
        if i > 0 {
            j.push(',');
        }
        j.push_str(&format!(
            "{{\"kind\":{},\"what\":{},\"model\":\"{}\",\"trace\":{},\"count\":{},\"notes\":[{}]}}",
            esc(f.kind),
            esc(&f.what),
            hex(&f.model),
            esc(&f.trace),
            f.count,
            f.notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(",")
        ));
    }
    j.push_str("],\"samples\":[");
    let ss: Vec<String> = samples.iter().map(|(m, n)| format!("{{\"model\":\"{}\",\"notes\":[{}]}}", hex(m), n.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","))).collect();
    j.push_str(&ss.join(","));
    j.push_str("],\"covers\":{");
    j.push_str(&covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"notes\":{");
    j.push_str(&notes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"functions\":[");
    let fs: Vec<String> = (0..ex.m.funcs.len()).filter(|i| ex.m.funcs[*i].compiled.is_some()).map(|i| esc(ex.m.func_name(i))).collect();
    j.push_str(&fs.join(","));
    j.push_str("]}\n");
    if out.is_empty() {
        if let Some(p) = &ex.profile {
            let mut v: Vec<_> = p.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (f, n) in v.iter().take(30) {
                eprintln!("{:10} {}", n, ex.m.func_name(**f));
            }
        }
        if let Some(p) = j.find(",\"functions\"") {
            eprintln!("{}", &j[..p]);
        }
    } else {
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&out).unwrap();
        f.write_all(j.as_bytes()).unwrap();
    }
    unsafe { _exit(0) }
}

fn split(s: &str) -> (String, String) {
    match s.find('\n') {
        Some(i) => (s[..i].to_string(), s[i..].to_string()),
        None => (s.to_string(), String::new()),
    }
}
fn finish(st: &State, covers: &mut BTreeMap<u32, u64>) {
    for c in st.covers.iter() {
        *covers.entry(*c).or_insert(0) += 1;
    }
}
