mod checks;
mod fw;
mod gen;
mod hp;
mod sym;

use fw::{Run, Tier};
use std::sync::Arc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: mc <ID> quick|thorough");
        std::process::exit(2);
    }
    let tier = match args[2].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => std::process::exit(2),
    };
    let variant = if cfg!(feature = "docs") { "docs" } else { "nodocs" };
    fw::install_panic_hook();
    let run = Arc::new(Run::new(&args[1], tier, variant));
    run.watchdog();
    match fw::guard(|| checks::dispatch(&args[1], &run)) {
        Ok(true) => {}
        Ok(false) => {
            eprintln!("unknown check {}", args[1]);
            std::process::exit(2);
        }
        // something that the property needs is missing or unusable
        Err(msg) => run.violation("cannot continue", msg),
    }
    std::process::exit(run.finish(&[]));
}
