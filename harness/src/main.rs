mod edx;
mod mass;
mod misc;
mod ops;
mod run;
mod trace;
mod world;

use std::io::{BufRead, BufWriter, Write};

/// what was done so far, by all the episodes: something increments it from time to time
/// as long as no operation hangs
pub static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn main() {
    trace::install();
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        // fxv run EPISODES.ndjson TRACES.ndjson
        // fxv edx EPISODES.ndjson TRACES.ndjson
        "run" | "edx" => {
            let f = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
            let lines: Vec<String> = f.lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect();
            let mut o = BufWriter::new(std::fs::File::create(&args[3]).unwrap());
            // an episode that makes no progress at all is a hang: give up, the
            // caller knows which one it is from the number of lines written
            let hang: u64 = std::env::var("FXV_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(60);
            std::thread::spawn(move || {
                let (mut last, mut n) = (u64::MAX, 0);
                loop {
                    std::thread::sleep(std::time::Duration::from_secs(1));
                    let x = TICK.load(std::sync::atomic::Ordering::Relaxed);
                    n = if x == last { n + 1 } else { 0 };
                    last = x;
                    if n >= hang {
                        std::process::exit(77);
                    }
                }
            });
            for l in lines {
                let v = if args[1] == "run" {
                    let ep: run::Episode = serde_json::from_str(&l).expect("episode");
                    run::Runner::run(&ep)
                } else {
                    edx::run(&serde_json::from_str(&l).expect("episode"))
                };
                writeln!(o, "{v}").unwrap();
                o.flush().unwrap();
                TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
        }
        x => panic!("unknown command {x}"),
    }
}
