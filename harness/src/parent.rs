//! Parent process: starts workers, watches them, confirms what they report, writes the evidence.
use crate::props::{self, Prop};
use crate::tape::Rng;
use crate::worker;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const VERIF: &str = "/verif";

#[derive(Default)]
struct Report {
    num: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    edges: Vec<u32>,
    viol: Option<(String, String)>,
}
fn read_report(p: &Path) -> Option<Report> {
    let s = std::fs::read_to_string(p).ok()?;
    let mut r = Report::default();
    let (mut tape, mut msg) = (None, None);
    for l in s.lines() {
        let Some((k, v)) = l.split_once('=') else { continue };
        if let Some(c) = k.strip_prefix("count.") {
            *r.counts.entry(c.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
            continue;
        }
        match k {
            "sample" => r.samples.push(v.to_string()),
            "edges" => r.edges = v.split(',').filter_map(|x| x.parse().ok()).collect(),
            "viol.tape" => tape = Some(v.to_string()),
            "viol.msg" => msg = Some(v.to_string()),
            _ => {
                if let Ok(n) = v.parse::<u64>() {
                    r.num.insert(k.to_string(), n);
                }
            }
        }
    }
    r.viol = tape.map(|t| (t, msg.unwrap_or_default()));
    Some(r)
}

struct W {
    child: Child,
    out: PathBuf,
    page: PathBuf,
    bin: PathBuf,
    seed: u64,
    kind: Kind,
    code: Option<Option<i32>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Normal,
    /// the second one of a pair does other work before every case
    Twin(usize, bool),
    Asan,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// rerun one case in a fresh process; (exit code, output)
fn replay(bin: &Path, id: &str, tape: &str, seed: Option<u64>, cpu: u64) -> (Option<i32>, String) {
    match replay_command(bin, id, tape, seed, cpu).stderr(Stdio::piped()).stdout(Stdio::piped()).output() {
        Ok(o) => {
            let mut t = String::from_utf8_lossy(&o.stdout).into_owned();
            t.push_str(&String::from_utf8_lossy(&o.stderr));
            (o.status.code(), t)
        }
        Err(e) => (Some(worker::EXIT_HARNESS), e.to_string()),
    }
}
fn replay_command(bin: &Path, id: &str, tape: &str, seed: Option<u64>, cpu: u64) -> Command {
    let mut c = Command::new("/bin/bash");
    let s = seed.map(|x| x.to_string()).unwrap_or_default();
    c.arg("-c").arg(format!("ulimit -c 0; ulimit -t {}; exec \"$0\" \"$@\"", cpu)).arg(bin).args(["replay", id, tape, &s]);
    c.env("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:abort_on_error=0").stdin(Stdio::null());
    c
}

/// the cases crashed or stuck workers were in, rerun side by side; the rest is ended once one of them is confirmed
fn replay_all(cases: &[(PathBuf, String, u64)], id: &str, dir: &Path, cpu: u64) -> Vec<Option<(Option<i32>, String)>> {
    let mut run: Vec<Option<Child>> = vec![];
    let file = |i: usize| dir.join(format!("r{}.out", i));
    for (i, (bin, tape, seed)) in cases.iter().enumerate() {
        let f = std::fs::File::create(file(i)).unwrap();
        let g = f.try_clone().unwrap();
        run.push(replay_command(bin, id, tape, Some(*seed), cpu).stdout(f).stderr(g).spawn().ok());
    }
    let mut out: Vec<Option<(Option<i32>, String)>> = vec![None; cases.len()];
    loop {
        let mut open = 0;
        for i in 0..run.len() {
            let Some(c) = run[i].as_mut() else { continue };
            match c.try_wait() {
                Ok(Some(st)) => {
                    out[i] = Some((st.code(), std::fs::read_to_string(file(i)).unwrap_or_default()));
                    run[i] = None;
                }
                _ => open += 1,
            }
        }
        let confirmed = out.iter().flatten().any(|(c, _)| !matches!(c, Some(0) | Some(worker::EXIT_HARNESS)));
        if open == 0 || confirmed {
            for c in run.iter_mut().flatten() {
                let _ = c.kill();
                let _ = c.wait();
            }
            return out;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

struct Viol {
    msg: String,
    tape: String,
    seed: Option<u64>,
    asan: bool,
}

/// "finding: property=<id> match=<text> ..." lines of the committed file
fn known(id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", VERIF)).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(' ')?;
            if p != id {
                return None;
            }
            let rest = rest.strip_prefix("match=[")?;
            let (m, what) = rest.split_once("] ")?;
            Some((m.to_string(), what.to_string()))
        })
        .collect()
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

pub fn check(id: &str, args: &[String]) -> i32 {
    let p: &'static Prop = props::find(id);
    let start = Instant::now();
    let tier = opt(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = opt(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 20.0 } else { 420.0 });
    let exe = std::env::current_exe().unwrap();
    let asan = opt(args, "--asan").map(PathBuf::from).filter(|b| b.exists());
    let dir = PathBuf::from(format!("{}/target/run/{}.{}", VERIF, id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);

    let base = crate::term::hash64(&format!("{}#{}", id, seed));
    let mut plan: Vec<(Kind, PathBuf, u64)> = vec![];
    let twins = if p.twin { 2 } else { 0 };
    let asans = if p.asan && asan.is_some() { 2 } else { 0 };
    for i in 0..(cores - 2 * twins - asans).max(2) {
        plan.push((Kind::Normal, exe.clone(), base.wrapping_add(i as u64 * 0x1_0001)));
    }
    for j in 0..twins {
        for other in [false, true] {
            plan.push((Kind::Twin(j, other), exe.clone(), base ^ (0x7777 + j as u64)));
        }
    }
    for j in 0..asans {
        plan.push((Kind::Asan, asan.clone().unwrap(), base ^ (0xA5A5 + j as u64)));
    }
    let twin_cases = if tier == "quick" { 20_000 } else { 400_000 };

    let mut ws: Vec<W> = vec![];
    for (i, (kind, bin, wseed)) in plan.into_iter().enumerate() {
        let out = dir.join(format!("w{}", i));
        let page = dir.join(format!("w{}.page", i));
        let mut c = Command::new(&bin);
        c.args(["worker", id, "--seed", &wseed.to_string(), "--out", out.to_str().unwrap(), "--page", page.to_str().unwrap()]);
        match kind {
            Kind::Twin(_, other) => c.args(["--unguided", "--cases", &twin_cases.to_string(), "--secs", &secs.to_string(), if other { "--noise" } else { "--no-noise" }]),
            _ => c.args(["--secs", &secs.to_string()]),
        };
        c.env("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:abort_on_error=0");
        c.env("VERIF_TIER", tier);
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(dir.join(format!("w{}.err", i))).unwrap());
        let child = c.spawn().expect("worker");
        ws.push(W { child, out, page, bin, seed: wseed, kind, code: None });
    }
    // the watchdog only ends workers; it decides nothing
    let deadline = Duration::from_secs_f64(secs + if tier == "quick" { 90.0 } else { 300.0 });
    loop {
        let mut open = 0;
        for w in ws.iter_mut() {
            if w.code.is_none() {
                match w.child.try_wait() {
                    Ok(Some(s)) => w.code = Some(s.code()),
                    _ => open += 1,
                }
            }
        }
        if open == 0 {
            break;
        }
        let found = ws.iter().any(|w| matches!(w.code, Some(Some(worker::EXIT_VIOL))));
        let crashed = ws.iter().any(|w| !matches!(w.code, None | Some(Some(0))));
        if start.elapsed() > deadline || (found && start.elapsed() > Duration::from_secs(20)) || (crashed && start.elapsed() > Duration::from_secs_f64(secs + 15.0)) {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let mut timed_out = vec![];
    for (i, w) in ws.iter_mut().enumerate() {
        if w.code.is_none() {
            let _ = w.child.kill();
            let _ = w.child.wait();
            timed_out.push(i);
        }
    }

    // gather
    let mut viols: Vec<Viol> = vec![];
    let mut broken: Vec<String> = vec![];
    let mut rep = Report::default();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut edges: HashSet<u32> = HashSet::new();
    let mut max_steps = 0u64;
    let mut asan_cases = 0u64;
    let found = ws.iter().any(|w| matches!(w.code, Some(Some(worker::EXIT_VIOL))));
    // what were workers doing that crashed, ran over budget or were stopped by the watchdog?
    let odd = |w: &W| !matches!(w.code, Some(Some(0)) | Some(Some(worker::EXIT_VIOL)) | Some(Some(worker::EXIT_HARNESS)));
    let mut again: BTreeMap<usize, (Option<i32>, String)> = BTreeMap::new();
    {
        let idx: Vec<usize> = (0..ws.len()).filter(|i| odd(&ws[*i]) && !(found && timed_out.contains(i))).collect();
        let cases: Vec<(usize, (PathBuf, String, u64))> = idx.iter().filter_map(|i| worker::read_page(ws[*i].page.to_str().unwrap()).map(|pc| (*i, (ws[*i].bin.clone(), worker::hex(&pc.data), pc.seed)))).collect();
        let list: Vec<_> = cases.iter().map(|c| c.1.clone()).collect();
        for ((i, _), r) in cases.iter().zip(replay_all(&list, id, &dir, 150)) {
            if let Some(r) = r {
                again.insert(*i, r);
            }
        }
    }
    let confirmed = again.values().any(|(c, _)| !matches!(c, Some(0) | Some(worker::EXIT_HARNESS)));
    for (i, w) in ws.iter().enumerate() {
        let err = std::fs::read_to_string(dir.join(format!("w{}.err", i))).unwrap_or_default();
        if let Some(r) = read_report(&w.out) {
            for (k, v) in &r.num {
                if k == "maxsteps" {
                    max_steps = max_steps.max(*v);
                } else if k == "edges_total" && w.kind == Kind::Asan {
                } else if k == "edges_total" {
                    let e = rep.num.entry(k.clone()).or_insert(0);
                    *e = (*e).max(*v);
                } else {
                    *rep.num.entry(k.clone()).or_insert(0) += v;
                }
            }
            if w.kind == Kind::Asan {
                asan_cases += r.num.get("cases").copied().unwrap_or(0);
            }
            for (k, v) in &r.counts {
                *rep.counts.entry(k.clone()).or_insert(0) += v;
            }
            if rep.samples.len() < 12 {
                rep.samples.extend(r.samples.iter().take(2).cloned());
            }
            // the ASan build numbers its edges differently
            if w.kind != Kind::Asan {
                edges.extend(r.edges.iter());
            }
            if let Ok(b) = std::fs::read(format!("{}.keys", w.out.display())) {
                keys.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            if let Some((tape, msg)) = r.viol {
                viols.push(Viol { msg, tape, seed: None, asan: w.kind == Kind::Asan });
            }
        }
        match w.code {
            Some(Some(0)) | Some(Some(worker::EXIT_VIOL)) => {}
            Some(Some(worker::EXIT_HARNESS)) => broken.push(format!("worker {}: {}", i, err.trim())),
            None if found => {}
            code => {
                // crashed, over budget, or stopped by the watchdog: what was it doing?
                let why = match code {
                    Some(Some(worker::EXIT_STEPS)) => "executed more than the budget of control-flow edges in one call".to_string(),
                    Some(Some(worker::EXIT_MEM)) => "exceeded the live heap budget in one call".to_string(),
                    Some(Some(99)) => format!("AddressSanitizer report: {}", err.lines().find(|l| l.contains("ERROR")).unwrap_or("")),
                    Some(Some(c)) => format!("exited with {}", c),
                    Some(None) => "died from a signal (stack overflow, abort)".to_string(),
                    None => "did not come back".to_string(),
                };
                match worker::read_page(w.page.to_str().unwrap()) {
                    Some(pc) => {
                        let tape = worker::hex(&pc.data);
                        let Some((rc, out)) = again.remove(&i) else {
                            if !confirmed {
                                broken.push(format!("worker {} {} and could not be replayed", i, why));
                            }
                            continue;
                        };
                        match rc {
                            Some(0) => {
                                // alone it is fine: the worker was merely slow or was ended from outside
                                eprintln!("note: worker {} {} but the case replays cleanly", i, why);
                                if code != None {
                                    broken.push(format!("worker {} {} (not reproduced): {}", i, why, err.trim()));
                                }
                            }
                            // came back at least once within the cpu limit: slow, nothing else
                            None if out.contains("held") || out.contains("discarded") => eprintln!("note: worker {} {}: a slow case", i, why),
                            Some(worker::EXIT_HARNESS) => broken.push(format!("worker {}: {}", i, out.trim())),
                            _ => {
                                let m = if rc == Some(worker::EXIT_VIOL) { out.lines().find(|l| l.starts_with("violated")).unwrap_or("").to_string() } else { format!("{} [{}]", why, out.lines().rev().find(|l| l.starts_with("call: ")).unwrap_or(out.trim()).chars().take(600).collect::<String>()) };
                                viols.push(Viol { msg: m, tape, seed: Some(pc.seed), asan: w.kind == Kind::Asan });
                            }
                        }
                    }
                    None => broken.push(format!("worker {} {} without a case: {}", i, why, err.trim())),
                }
            }
        }
    }
    // twin processes must have seen the same results case by case
    let mut twin_compared = 0u64;
    for j in 0..twins {
        let d: Vec<Vec<u8>> = ws.iter().filter(|w| matches!(w.kind, Kind::Twin(k, _) if k == j)).filter_map(|w| std::fs::read(format!("{}.digests", w.out.display())).ok()).collect();
        let tw: Vec<&W> = ws.iter().filter(|w| matches!(w.kind, Kind::Twin(k, _) if k == j)).collect();
        // what a fresh process computes, and one that has done thousands of other things before
        let l: Vec<Vec<String>> = tw.iter().filter_map(|w| std::fs::read_to_string(format!("{}.early", w.out.display())).ok()).map(|s| s.lines().map(|x| x.to_string()).collect()).collect();
        if l.len() == 2 {
            *rep.counts.entry("results_compared_fresh_against_warm_process".into()).or_insert(0) += l[0].len().min(l[1].len()) as u64;
            if let Some((x, y)) = l[0].iter().zip(&l[1]).find(|(x, y)| x != y) {
                viols.push(Viol { msg: format!("a process that did other work before computed another result: {} but {}", x, y), tape: String::new(), seed: None, asan: false });
            }
        }
        if d.len() == 2 {
            let n = d[0].len().min(d[1].len()) / 8;
            twin_compared += n as u64;
            if let Some(c) = (0..n).find(|c| d[0][c * 8..c * 8 + 8] != d[1][c * 8..c * 8 + 8]) {
                let mut r = Rng::new(tw[0].seed);
                let mut s = 0;
                for _ in 0..=c {
                    s = r.next();
                }
                viols.push(Viol { msg: format!("two processes computed different results for the same input (case {})", c), tape: String::new(), seed: Some(s), asan: false });
            }
        }
    }
    if p.twin {
        rep.counts.insert("results_compared_between_processes".into(), twin_compared);
    }

    // known findings
    let kn = known(id);
    let mut fresh: Vec<Viol> = vec![];
    for v in viols {
        if let Some((_, what)) = kn.iter().find(|(m, _)| v.msg.contains(m.as_str())) {
            println!("KNOWN-FINDING: property={} {}", id, what);
        } else {
            fresh.push(v);
        }
    }
    fresh.sort_by_key(|v| v.tape.len());

    let n = |k: &str| rep.num.get(k).copied().unwrap_or(0);
    let wall = start.elapsed().as_secs_f64();
    let mut cov = String::new();
    cov.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n", n("cases"), keys.len(), esc(p.rule)));
    cov.push_str(&format!("    \"discarded_outside_domain\": {},\n", n("discards")));
    cov.push_str(&format!("    \"control_flow_edges_of_ncas_covered\": {},\n    \"control_flow_edges_of_ncas_total\": {},\n", edges.len(), n("edges_total")));
    cov.push_str(&format!("    \"edges_executed_in_ncas\": {},\n    \"most_edges_in_one_call\": {},\n", n("steps"), max_steps));
    cov.push_str(&format!("    \"worker_processes\": {},\n", ws.len()));
    if p.asan {
        cov.push_str(&format!("    \"cases_under_address_sanitizer\": {},\n", asan_cases));
    }
    cov.push_str("    \"observed\": {\n");
    let l: Vec<String> = rep.counts.iter().map(|(k, v)| format!("      {}: {}", esc(k), v)).collect();
    cov.push_str(&l.join(",\n"));
    cov.push_str("\n    },\n    \"samples\": [\n");
    let l: Vec<String> = rep.samples.iter().map(|s| format!("      {}", esc(s))).collect();
    cov.push_str(&l.join(",\n"));
    cov.push_str("\n    ]");
    let ass: Vec<String> = p.assume.iter().map(|s| format!("    {}", esc(s))).collect();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [\n{}\n  ],\n  \"wall_s\": {:.1},\n  \"violations\": {}\n}}\n",
        esc(id), esc(tier), seed, cov, ass.join(",\n"), wall, fresh.len()
    );
    std::fs::create_dir_all(format!("{}/evidence", VERIF)).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", VERIF, id), ev).unwrap();
    let _ = std::fs::remove_dir_all(&dir);

    println!("{}: {} cases, {} distinct non-trivial, {} discarded, edges {}/{}, max steps {}, {:.1} s", id, n("cases"), keys.len(), n("discards"), edges.len(), n("edges_total"), max_steps, wall);
    if !fresh.is_empty() {
        std::fs::create_dir_all(format!("{}/replays", VERIF)).unwrap();
        let v = &fresh[0];
        let path = format!("{}/replays/{}-{:016x}.txt", VERIF, id, crate::term::hash64(&format!("{}{:?}", v.tape, v.seed)));
        let again = if v.tape.len() < 100_000 {
            let bin = if v.asan { asan.clone().unwrap_or(exe.clone()) } else { exe.clone() };
            let (rc, out) = replay(&bin, id, &v.tape, v.seed, 150);
            format!("exit {:?}\n{}", rc, { let n = out.chars().count(); out.chars().skip(n.saturating_sub(6000)).collect::<String>() })
        } else {
            String::new()
        };
        let body = format!(
            "property={}\nmessage={}\ntape={}\nrng_seed={}\nreplay: /verif/target/release/ncasmon replay {} '{}' {}\n\nreplayed in a fresh process: {}\n",
            id, v.msg, v.tape, v.seed.map(|x| x.to_string()).unwrap_or_default(), id, v.tape, v.seed.map(|x| x.to_string()).unwrap_or_default(), again
        );
        std::fs::write(&path, body).unwrap();
        println!("violated: {}", v.msg.chars().take(2000).collect::<String>());
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    if !broken.is_empty() {
        for b in &broken {
            eprintln!("error: {}", b.chars().take(3000).collect::<String>());
        }
        return 2;
    }
    if timed_out.len() * 2 > ws.len() {
        eprintln!("error: most workers did not finish");
        return 2;
    }
    if n("cases") == 0 || keys.is_empty() {
        eprintln!("error: nothing was observed");
        return 2;
    }
    0
}
