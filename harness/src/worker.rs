//! Worker process: runs cases of one property, watches the monitored calls, reports.
use crate::props::{Fail, Obs, Prop};
use crate::sancov;
use crate::tape::{Rng, Tape};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const EXIT_STEPS: i32 = 77;
pub const EXIT_MEM: i32 = 78;
pub const EXIT_VIOL: i32 = 1;
pub const EXIT_HARNESS: i32 = 70;

extern "C" {
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub fn die(code: i32, msg: &str) -> ! {
    sancov::clear_budget();
    let mut e = std::io::stderr();
    let _ = e.write_all(b"ncasmon: ");
    let _ = e.write_all(msg.as_bytes());
    let _ = e.write_all(b"\n");
    unsafe { _exit(code) }
}

// ------------------------------------------------------------------ live heap meter

pub struct Meter;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
static MEM_LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        if n > MEM_LIMIT.load(Relaxed) {
            MEM_LIMIT.store(i64::MAX, Relaxed);
            die(EXIT_MEM, "live heap budget exceeded");
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Meter = Meter;

// ------------------------------------------------------------------ progress page (survives a crash of the worker)

pub static PAGE: AtomicUsize = AtomicUsize::new(0);
const PAGE_LEN: usize = 1 << 14;
/// layout: [0..4] length, [4] in-call flag, [8..16] rng seed, [16..] tape prefix
pub fn open_page(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("page");
    f.set_len(PAGE_LEN as u64).expect("page len");
    let p = unsafe { mmap(std::ptr::null_mut(), PAGE_LEN, 3, 1, f.as_raw_fd(), 0) };
    if p as isize == -1 {
        die(EXIT_HARNESS, "mmap failed");
    }
    PAGE.store(p as usize, Relaxed);
}
fn page_case(seed: u64, data: &[u8]) {
    let p = PAGE.load(Relaxed) as *mut u8;
    if p.is_null() {
        return;
    }
    let n = data.len().min(PAGE_LEN - 16);
    unsafe {
        std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(16), n);
        std::ptr::copy_nonoverlapping(seed.to_le_bytes().as_ptr(), p.add(8), 8);
        std::ptr::copy_nonoverlapping((n as u32).to_le_bytes().as_ptr(), p, 4);
        *p.add(4) = 0;
    }
}
/// replays name every call before making it
pub static TRACE: AtomicBool = AtomicBool::new(false);
static PAGE_FLAG: AtomicBool = AtomicBool::new(false);
fn page_flag(on: bool) {
    PAGE_FLAG.store(on, Relaxed);
    let p = PAGE.load(Relaxed) as *mut u8;
    if !p.is_null() {
        unsafe { *p.add(4) = on as u8 };
    }
}
/// A replay that is still busy after a while, but neither inside a call nor in any code of ncas, is busy in the harness:
/// that says nothing about ncas.
pub fn excuse_slow_harness() {
    std::thread::spawn(|| {
        let nap = |s| std::thread::sleep(std::time::Duration::from_secs(s));
        nap(40);
        loop {
            let s = sancov::steps();
            let mut called = PAGE_FLAG.load(Relaxed);
            for _ in 0..50 {
                std::thread::sleep(std::time::Duration::from_millis(100));
                called |= PAGE_FLAG.load(Relaxed);
            }
            if !called && sancov::steps() == s {
                println!("discarded: the harness is slow here");
                std::process::exit(0);
            }
            nap(5);
        }
    });
}
pub struct PageCase {
    pub in_call: bool,
    pub seed: u64,
    pub data: Vec<u8>,
}
pub fn read_page(path: &str) -> Option<PageCase> {
    let b = std::fs::read(path).ok()?;
    if b.len() < 16 {
        return None;
    }
    let n = u32::from_le_bytes(b[0..4].try_into().ok()?) as usize;
    Some(PageCase { in_call: b[4] != 0, seed: u64::from_le_bytes(b[8..16].try_into().ok()?), data: b.get(16..16 + n)?.to_vec() })
}

// ------------------------------------------------------------------ monitored calls

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());
static IN_SUT: AtomicBool = AtomicBool::new(false);
static QUIET: AtomicBool = AtomicBool::new(false);
pub static MAX_STEPS: AtomicU64 = AtomicU64::new(0);
pub static STEP_BUDGET: AtomicU64 = AtomicU64::new(2_000_000_000);
pub static MEM_BUDGET: AtomicI64 = AtomicI64::new(1_500_000_000);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<crate::term::Oversize>() {
            return;
        }
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if let Ok(mut g) = PANIC_MSG.lock() {
            *g = format!("{} ({})", m, loc);
        }
        let in_call = PAGE_FLAG.load(Relaxed);
        if !in_call {
            // a panic outside a monitored call: in the harness, or in the crate under test (e.g. called back from a sort)?
            let b = std::backtrace::Backtrace::force_capture().to_string();
            IN_SUT.store(b.lines().any(|l| l.contains(" ncas::") || l.contains("<ncas::")), Relaxed);
        }
        if !QUIET.load(Relaxed) {
            eprintln!("panic: {} ({})", m, loc);
        }
    }));
    QUIET.store(true, Relaxed);
}
pub fn last_panic() -> String {
    PANIC_MSG.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Run a call into the code under test: panics become violations, edges and live heap are budgeted.
pub fn monitored<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    page_flag(true);
    let s0 = sancov::steps();
    sancov::set_budget(STEP_BUDGET.load(Relaxed));
    MEM_LIMIT.store(LIVE.load(Relaxed) + MEM_BUDGET.load(Relaxed), Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    MEM_LIMIT.store(i64::MAX, Relaxed);
    sancov::clear_budget();
    let d = sancov::steps() - s0;
    if d > MAX_STEPS.load(Relaxed) {
        MAX_STEPS.store(d, Relaxed);
    }
    page_flag(false);
    r.map_err(|p| {
        if p.is::<crate::term::Oversize>() {
            std::panic::resume_unwind(p);
        }
        format!("panicked: {}", last_panic())
    })
}

// ------------------------------------------------------------------ one case

pub enum Out {
    Pass,
    Discard,
    Viol(String),
    Harness(String),
}
pub fn run_case(p: &Prop, tape: &mut Tape, obs: &mut Obs) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(tape, obs))) {
        Ok(Ok(())) => Out::Pass,
        Ok(Err(Fail::Discard)) => Out::Discard,
        Ok(Err(Fail::Viol(m))) => Out::Viol(m),
        Err(p) if p.is::<crate::term::Oversize>() => {
            IN_SUT.store(false, Relaxed);
            Out::Discard
        }
        Err(_) if IN_SUT.swap(false, Relaxed) => Out::Viol(format!("the crate panicked: {}", last_panic())),
        Err(_) => Out::Harness(last_panic()),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

fn mutate(r: &mut Rng, base: &[u8], other: &[u8]) -> Vec<u8> {
    let mut d = base.to_vec();
    for _ in 0..1 + r.below(4) {
        if d.is_empty() {
            break;
        }
        let i = r.below(d.len() as u64) as usize;
        match r.below(7) {
            0 => d[i] = r.next() as u8,
            1 => d[i] = d[i].wrapping_add(1 + r.below(4) as u8),
            2 => d[i] = d[i].wrapping_sub(1 + r.below(4) as u8),
            3 => {
                d.truncate(i);
            }
            4 => {
                let n = (1 + r.below(8)) as usize;
                let e = (i + n).min(d.len());
                d.drain(i..e);
            }
            5 => {
                let n = (1 + r.below(16)) as usize;
                let e = (i + n).min(d.len());
                let chunk = d[i..e].to_vec();
                let at = r.below(d.len() as u64 + 1) as usize;
                d.splice(at..at, chunk);
            }
            _ => {
                if !other.is_empty() {
                    let j = r.below(other.len() as u64) as usize;
                    let n = (1 + r.below(40)) as usize;
                    let chunk = other[j..(j + n).min(other.len())].to_vec();
                    let e = (i + chunk.len()).min(d.len());
                    d.splice(i..e, chunk);
                }
            }
        }
    }
    d.truncate(4000);
    d
}

/// Delete / zero / halve bytes while the case keeps failing.
fn shrink(p: &Prop, data: Vec<u8>, deadline: Instant) -> (Vec<u8>, String) {
    let check = |d: &[u8]| -> Option<(Vec<u8>, String)> {
        let mut t = Tape::replay(d.to_vec());
        let mut o = Obs::default();
        // a nondeterministic failure gets a few chances
        for _ in 0..3 {
            t.pos = 0;
            if let Out::Viol(m) = run_case(p, &mut t, &mut o) {
                return Some((t.used().to_vec(), m));
            }
            if !p.nondet {
                break;
            }
        }
        None
    };
    let mut best = data;
    let mut msg = String::new();
    if let Some((d, m)) = check(&best) {
        best = d;
        msg = m;
    }
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && Instant::now() < deadline {
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if let Some((d, m)) = check(&c) {
                    if d.len() < best.len() {
                        best = d;
                        msg = m;
                        progress = true;
                        continue;
                    }
                }
                let mut c = best.clone();
                if c[i..e].iter().any(|x| *x != 0) {
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some((d, m)) = check(&c) {
                        if d.len() <= best.len() {
                            best = d;
                            msg = m;
                            progress = true;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if Instant::now() > deadline {
                break;
            }
            while best.get(i).map_or(false, |x| *x > 0) && Instant::now() < deadline {
                let mut c = best.clone();
                c[i] /= 2;
                match check(&c) {
                    Some((d, m)) if d.len() <= best.len() => {
                        best = d;
                        msg = m;
                        progress = true;
                    }
                    _ => break,
                }
            }
        }
    }
    (best, msg)
}

pub struct Job {
    pub seed: u64,
    pub secs: f64,
    pub max_cases: u64,
    pub guided: bool,
    pub out: String,
}

/// One whole worker run; returns the exit code.
pub fn work(p: &'static Prop, job: &Job) -> i32 {
    let start = Instant::now();
    let mut r = Rng::new(job.seed);
    // tapes that reached new edges, with what they cost
    let mut corpus: Vec<(Vec<u8>, u64)> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let (mut n, mut discards, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut digests: Vec<u8> = vec![];
    let mut next_sample = 3u64;
    let mut code = 0;
    let mut viol = None;
    while n < job.max_cases && (n % 16 != 0 || start.elapsed() < Duration::from_secs_f64(job.secs)) {
        let seed = r.next();
        let data = if job.guided && !corpus.is_empty() && r.below(100) < 35 {
            let pick = |r: &mut Rng| r.below(corpus.len() as u64) as usize;
            // the cheapest of three
            let i = [pick(&mut r), pick(&mut r), pick(&mut r)].into_iter().min_by_key(|i| corpus[*i].1).unwrap();
            let j = pick(&mut r);
            mutate(&mut r, &corpus[i].0, &corpus[j].0)
        } else {
            vec![]
        };
        page_case(seed, &data);
        let mut tape = Tape::random(data, seed);
        let mut obs = Obs::default();
        obs.index = n;
        let before = sancov::edges_covered();
        let steps0 = sancov::steps();
        let out = run_case(p, &mut tape, &mut obs);
        n += 1;
        if job.guided && sancov::edges_covered() > before && corpus.len() < 4000 {
            corpus.push((tape.used().to_vec(), sancov::steps() - steps0));
        }
        for (k, v) in obs.counts.iter() {
            *counters.entry(k.to_string()).or_insert(0) += v;
        }
        if p.twin && !job.guided {
            digests.extend_from_slice(&obs.digest.to_le_bytes());
        }
        match out {
            Out::Pass => {
                if obs.nontrivial {
                    nontrivial += 1;
                    if distinct.len() < 3_000_000 {
                        distinct.insert(obs.key);
                    }
                    if nontrivial >= next_sample && !obs.sample.is_empty() && obs.sample.len() < 400 && samples.len() < 12 {
                        samples.push(obs.sample.clone());
                        next_sample = nontrivial * 4;
                    }
                }
            }
            Out::Discard => discards += 1,
            Out::Harness(m) => {
                eprintln!("ncasmon: harness error in {}: {} tape={}", p.id, m, hex(tape.used()));
                code = EXIT_HARNESS;
                break;
            }
            Out::Viol(m) => {
                let (d, m2) = shrink(p, tape.used().to_vec(), Instant::now() + Duration::from_secs(6));
                viol = Some((d, if m2.is_empty() { m } else { m2 }));
                code = EXIT_VIOL;
                break;
            }
        }
    }
    // report
    let mut s = String::new();
    s.push_str(&format!("cases={}\ndiscards={}\nnontrivial={}\nmaxsteps={}\nsteps={}\nedges_total={}\ncorpus={}\nwall={:.3}\n", n, discards, nontrivial,
        MAX_STEPS.load(Relaxed), sancov::steps(), sancov::edges_total(), corpus.len(), start.elapsed().as_secs_f64()));
    for (k, v) in &counters {
        s.push_str(&format!("count.{}={}\n", k, v));
    }
    for x in &samples {
        s.push_str(&format!("sample={}\n", x.replace('\n', " ")));
    }
    s.push_str(&format!("edges={}\n", sancov::covered_ids().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    if p.twin && !job.guided {
        std::fs::write(format!("{}.digests", job.out), digests).ok();
    }
    if let Some((d, m)) = viol {
        s.push_str(&format!("viol.tape={}\nviol.msg={}\n", hex(&d), m.replace('\n', "\\n")));
    }
    std::fs::write(&job.out, s).ok();
    let mut b = Vec::with_capacity(distinct.len() * 8);
    for k in &distinct {
        b.extend_from_slice(&k.to_le_bytes());
    }
    std::fs::write(format!("{}.keys", job.out), b).ok();
    code
}
