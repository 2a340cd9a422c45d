mod binary;
mod checks;
mod engine;
mod extra;
mod gen;
mod model;
mod ops;
mod pcap;
mod runner;
mod sim;

use std::path::PathBuf;

/// Formats the messages logged by pica, as the programs do by default.
struct Logger;

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }

    fn log(&self, record: &log::Record) {
        if record.target().starts_with("pica") {
            std::hint::black_box(record.args().to_string());
        }
    }

    fn flush(&self) {}
}

fn main() {
    let start = std::time::Instant::now();
    let mut args = std::env::args().skip(1);
    let mut opts = runner::Opts {
        id: String::new(),
        tier: "quick".into(),
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        replay: None,
        build: PathBuf::from("/verif/.build"),
        threads: 8,
        scale: 1.0,
    };
    let mut evidence = None;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("missing value");
        match a.as_str() {
            "--tier" => opts.tier = v(),
            "--seed" => opts.seed = v().parse().expect("seed"),
            "--replay" => opts.replay = Some(v().into()),
            "--build" => opts.build = v().into(),
            "--threads" => opts.threads = v().parse().expect("threads"),
            "--scale" => opts.scale = v().parse().expect("scale"),
            "--evidence" => evidence = Some(PathBuf::from(v())),
            _ => opts.id = a,
        }
    }
    runner::quiet_panics();
    log::set_logger(&Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut report = runner::Report::default();
    if !checks::run(&opts, &mut report) {
        eprintln!("unknown check {}", opts.id);
        std::process::exit(2)
    }
    std::process::exit(runner::finish(&opts, report, start, evidence))
}
