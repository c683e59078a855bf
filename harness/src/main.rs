//! Native back end: runs the contracts of one property on the real code with concrete inputs, or replays one input.
use rhverify::{memory, nd, table, Contract};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// No input the contracts generate is larger than a few MB; one request this large means that a length field was
/// trusted.
const ALLOC_LIMIT: usize = 1 << 30;

struct Guard;
thread_local! { static CURRENT: Cell<Option<(&'static str, u64)>> = const { Cell::new(None) }; }
thread_local! { static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }

fn huge(size: usize) {
    if let Ok(Some((c, i))) = CURRENT.try_with(|c| c.take()) {
        fatal(c, i, &format!("asked the allocator for {size} bytes in one request"));
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > ALLOC_LIMIT { huge(l.size()) } memory::add(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if l.size() > ALLOC_LIMIT { huge(l.size()) } memory::add(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { memory::sub(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > ALLOC_LIMIT { huge(n) } memory::add(n); memory::sub(l.size()); System.realloc(p, l, n) }
}

#[global_allocator]
static A: Guard = Guard;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || (c as u32) > 0x7E => { for u in c.encode_utf16(&mut [0; 2]) { o += &format!("\\u{u:04x}") } }
            c => o.push(c)
        }
    }
    o + "\""
}

fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{b:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).unwrap()).collect() }

fn emit(line: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{line}");
    let _ = o.flush();
}

fn fail_line(c: &str, iter: u64, msg: &str, loc: &str, draws: &[Vec<u8>]) -> String {
    let d = draws.iter().map(|d| js(&hex(d))).collect::<Vec<_>>().join(",");
    format!("{{\"fail\":{},\"iter\":{iter},\"message\":{},\"location\":{},\"draws\":[{d}]}}", js(c), js(msg), js(loc))
}

fn fatal(c: &str, iter: u64, msg: &str) -> ! {
    let draws = nd::take_draws();
    emit(&fail_line(c, iter, msg, "", &draws));
    std::process::exit(3)
}

fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

enum Outcome { Held, Rejected, Failed(String, String) }

fn run_once(c: &Contract, iter: u64) -> Outcome {
    CURRENT.with(|x| x.set(Some((c.name, iter))));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (c.body)()));
    CURRENT.with(|x| x.set(None));
    match r {
        Ok(()) => Outcome::Held,
        Err(e) if e.is::<nd::AssumeFailed>() => Outcome::Rejected,
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Outcome::Failed(m, l)
        }
    }
}

#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let property = args[1].as_str();
    let contracts = table(property).expect("property not built");
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_none() { *p = Some((m, l)) } });
    }));

    match args[2].as_str() {
        "list" => for c in contracts {
            emit(&format!("{{\"name\":{},\"kind\":{},\"about\":{},\"iters\":{}}}", js(c.name), js(c.kind), js(c.about), c.iters));
        },
        // replay-draws <contract> <hex,hex,...>   |   replay-iter <contract> <seed> <iter>
        m @ ("replay-draws" | "replay-iter") => {
            let c = contracts.iter().find(|c| c.name == args[3]).expect("no such contract");
            if m == "replay-draws" {
                nd::start_replay(args[4].split(',').map(unhex).collect());
            }
            else {
                nd::start(args[4].parse::<u64>().unwrap() ^ fnv(c.name) ^ args[5].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15));
            }
            match run_once(c, 0) {
                Outcome::Held => emit("{\"replay\":\"held\"}"),
                Outcome::Rejected => emit("{\"replay\":\"rejected\"}"),
                Outcome::Failed(m, l) => { emit(&fail_line(c.name, 0, &m, &l, &nd::take_draws())); std::process::exit(1) }
            }
        },
        // search <seed> <multiplier> <max seconds> [only]
        "search" => {
            let seed: u64 = args[3].parse().unwrap();
            let mult: f64 = args[4].parse().unwrap();
            let secs: f64 = args[5].parse().unwrap();
            let only = args.get(6).cloned();
            let trace = std::env::var("RH_TRACE").ok();
            let list: Vec<&'static Contract> = contracts.iter().filter(|c| only.as_ref().map_or(true, |o| o == c.name)).collect();
            let threads: usize = if trace.is_some() { 1 } else { 8 };
            let start = Instant::now();
            let mut jobs: Vec<(usize, u64, u64)> = Vec::new();
            for (k, c) in list.iter().enumerate() {
                let total = if c.iters <= 1 { c.iters } else { ((c.iters as f64 * mult) as u64).max(1) };
                let step = total.div_ceil(threads as u64 * 2).max(1);
                let mut a = 0;
                while a < total { jobs.push((k, a, (a + step).min(total))); a += step }
            }
            // contracts share the time evenly: first chunks first
            jobs.sort_by_key(|j| j.1);
            let next = AtomicUsize::new(0);
            let ran: Vec<[AtomicU64; 3]> = list.iter().map(|_| Default::default()).collect();
            let failed: Vec<AtomicU64> = list.iter().map(|_| Default::default()).collect();
            let covers: Mutex<BTreeMap<usize, BTreeSet<&'static str>>> = Default::default();
            let samples: Mutex<BTreeMap<usize, Vec<String>>> = Default::default();
            let busy: Vec<Mutex<Option<(Instant, &'static str, u64)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
            let live = AtomicUsize::new(threads);
            let workers: Vec<usize> = (0..threads).collect();
            std::thread::scope(|s| {
                for &w in &workers {
                    let (list, jobs, next, ran, failed, covers, samples, busy, live, trace) = (&list, &jobs, &next, &ran, &failed, &covers, &samples, &busy, &live, &trace);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                        let mut distinct: BTreeSet<u64> = BTreeSet::new();
                        'jobs: loop {
                            let j = next.fetch_add(1, Ordering::Relaxed);
                            let Some(&(k, a, b)) = jobs.get(j) else { break };
                            let c = list[k];
                            distinct.clear();
                            let mut local = BTreeSet::new();
                            for i in a..b {
                                if start.elapsed().as_secs_f64() > secs && i > a { break }
                                if failed[k].load(Ordering::Relaxed) > 0 { continue 'jobs }
                                nd::start(seed ^ fnv(c.name) ^ i.wrapping_mul(0x9E3779B97F4A7C15));
                                *busy[w].lock().unwrap() = Some((Instant::now(), c.name, i));
                                if let Some(t) = trace { let _ = std::fs::write(t, format!("{} {}", c.name, i)); }
                                let o = run_once(c, i);
                                ran[k][0].fetch_add(1, Ordering::Relaxed);
                                nd::GEN.with(|g| for l in &g.borrow().covers { local.insert(*l); });
                                match o {
                                    Outcome::Held => {
                                        ran[k][1].fetch_add(1, Ordering::Relaxed);
                                        let d = nd::take_draws();
                                        let h = d.iter().fold(0u64, |h, v| v.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)));
                                        if distinct.len() < 200_000 { distinct.insert(h); }
                                        if i < 1 {
                                            let mut s = d.iter().map(|d| hex(d)).collect::<Vec<_>>().join(",");
                                            s.truncate(160);
                                            samples.lock().unwrap().entry(k).or_default().push(s);
                                        }
                                    },
                                    Outcome::Rejected => {},
                                    Outcome::Failed(m, l) => {
                                        if failed[k].fetch_add(1, Ordering::Relaxed) == 0 {
                                            emit(&fail_line(c.name, i, &m, &l, &nd::take_draws()));
                                        }
                                    }
                                }
                            }
                            *busy[w].lock().unwrap() = None;
                            ran[k][2].fetch_add(distinct.len() as u64, Ordering::Relaxed);
                            covers.lock().unwrap().entry(k).or_default().extend(local);
                        }
                        live.fetch_sub(1, Ordering::Relaxed);
                    }).unwrap();
                }
                // watchdog: one input must not take minutes
                while live.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    for b in &busy {
                        if let Some((t, c, i)) = *b.lock().unwrap() {
                            if t.elapsed() > Duration::from_secs(150) {
                                emit(&fail_line(c, i, "did not terminate within 150 s", "", &[]));
                                std::process::exit(3)
                            }
                        }
                    }
                }
            });
            for (k, c) in list.iter().enumerate() {
                let cv = covers.lock().unwrap().get(&k).map(|s| s.iter().map(|l| js(l)).collect::<Vec<_>>().join(",")).unwrap_or_default();
                let sm = samples.lock().unwrap().get(&k).map(|s| s.iter().map(|l| js(l)).collect::<Vec<_>>().join(",")).unwrap_or_default();
                emit(&format!("{{\"done\":{},\"ran\":{},\"held\":{},\"distinct\":{},\"covers\":[{cv}],\"samples\":[{sm}]}}", js(c.name), ran[k][0].load(Ordering::Relaxed), ran[k][1].load(Ordering::Relaxed), ran[k][2].load(Ordering::Relaxed)));
            }
            emit("{\"end\":true}");
        },
        _ => panic!("unknown mode")
    }
}
