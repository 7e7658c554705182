mod gen;
mod parent;
mod poly;
mod props;
mod sancov;
mod sem;
mod tape;
mod term;
mod worker;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| {
        eprintln!("ncasmon: harness thread panicked: {}", worker::last_panic());
        std::process::exit(worker::EXIT_HARNESS)
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(2).cloned().unwrap_or_default();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(parent::check(&id, &args)),
        Some("worker") => {
            worker::install_hook();
            let p = props::find(&id);
            worker::open_page(&arg(&args, "--page").unwrap());
            props::total::NOISE.store(args.contains(&"--noise".to_string()), std::sync::atomic::Ordering::Relaxed);
            let job = worker::Job {
                seed: arg(&args, "--seed").unwrap().parse().unwrap(),
                secs: arg(&args, "--secs").unwrap().parse().unwrap(),
                max_cases: arg(&args, "--cases").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX),
                guided: !args.contains(&"--unguided".to_string()),
                out: arg(&args, "--out").unwrap(),
            };
            let noisy = props::total::NOISE.load(std::sync::atomic::Ordering::Relaxed);
            let code = big_stack(move || {
                if noisy {
                    props::total::warm_up();
                }
                if p.twin && !job.guided {
                    std::fs::write(format!("{}.early", job.out), props::total::early(job.seed).join("\n")).ok();
                }
                worker::work(p, &job)
            });
            std::process::exit(code)
        }
        // replay <id> <tape hex> [rng seed]
        Some("replay") => {
            worker::install_hook();
            let p = props::find(&id);
            worker::TRACE.store(true, std::sync::atomic::Ordering::Relaxed);
            let data = worker::unhex(args.get(3).map(|s| s.as_str()).unwrap_or(""));
            let seed: Option<u64> = args.get(4).and_then(|s| s.parse().ok());
            if let Some(pg) = arg(&args, "--page") {
                worker::open_page(&pg);
            }
            worker::excuse_slow_harness();
            let code = big_stack(move || {
                let start = std::time::Instant::now();
                for i in 0..if p.nondet { 40 } else { 2 } {
                    if i > 0 && start.elapsed().as_secs() > 20 {
                        break;
                    }
                    let mut t = match seed {
                        Some(s) => tape::Tape::random(data.clone(), s),
                        None => tape::Tape::replay(data.clone()),
                    };
                    let mut o = props::Obs::default();
                    match worker::run_case(p, &mut t, &mut o) {
                        worker::Out::Viol(m) => {
                            println!("violated: {}", m);
                            return worker::EXIT_VIOL;
                        }
                        worker::Out::Harness(m) => {
                            println!("harness error: {}", m);
                            return worker::EXIT_HARNESS;
                        }
                        worker::Out::Discard => println!("discarded"),
                        worker::Out::Pass => println!("held: {}", o.sample),
                    }
                }
                0
            });
            std::process::exit(code)
        }
        _ => {
            eprintln!("usage: ncasmon check|worker|replay ID ...");
            std::process::exit(2)
        }
    }
}
