mod engine;
mod fmts;
mod images;
mod mips;
mod props;
mod refs;
mod report;

use engine::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "replay" {
        install_hook();
        std::process::exit(report::replay(&args[2]));
    }
    if args.len() < 2 {
        eprintln!("usage: t2dmc <PROPERTY> [quick|thorough] | replay FILE");
        std::process::exit(2);
    }
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    install_hook();
    std::process::exit(report::run(&args[1], tier));
}
