mod util;
mod params;
mod chrom;
mod client;
mod docs;
mod exits;
mod genetic;
mod indic;
mod misc;
mod numbers;
mod opt;
mod server;
mod stats;
mod strat;
mod trade;

use std::collections::HashMap;
use util::Args;

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let driver = argv[1].clone();
    let mut opts = HashMap::new();
    let mut i = 2;
    while i + 1 < argv.len() {
        opts.insert(argv[i].trim_start_matches("--").to_owned(), argv[i + 1].clone());
        i += 2;
    }
    let args = Args {
        seed: opts.get("seed").map(|s| s.parse().unwrap()).unwrap_or(1),
        thorough: opts.get("tier").map(|s| s == "thorough").unwrap_or(false),
        out: opts.get("out").cloned().unwrap_or_else(|| "/dev/stdout".into()),
        scen: opts.get("scen").cloned(),
        opts,
    };
    // Panics of the code under test are data: keep them out of stderr.
    std::panic::set_hook(Box::new(|_| {}));
    match driver.as_str() {
        "trade" => trade::main(&args),
        "causal" => trade::causal(&args),
        "advice" => strat::advice(&args),
        "composed" => strat::composed(&args),
        "strategies" => strat::strategies(&args),
        "maturity" => strat::maturity(&args),
        "exits" => exits::main(&args),
        "genetic" => genetic::main(&args),
        "client" => client::main(&args),
        "server" => server::cases(&args),
        "server-direct" => server::direct(&args),
        "stats" => stats::main(&args),
        "fitness" => opt::fitness(&args),
        "replay" => opt::replay(&args),
        "replay-child" => opt::replay_child(&args),
        "chromosome" => chrom::main(&args),
        "indicators" => indic::main(&args),
        "calendar" => misc::calendar(&args),
        "text" => misc::text(&args),
        "buffer" => misc::buffer(&args),
        "spans" => misc::spans(&args),
        "filters" => misc::filters(&args),
        "durations" => numbers::durations(&args),
        "rounding" => numbers::rounding(&args),
        "symbols" => numbers::symbols(&args),
        "documents" => docs::documents(&args),
        "easing" => exits::easings(&args),
        d => {
            eprintln!("unknown driver {d}");
            std::process::exit(2);
        }
    }
}
