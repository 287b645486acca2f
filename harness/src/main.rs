#![allow(clippy::too_many_arguments)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod explore;
mod host;
mod play;
mod prog;
mod refink;
mod util;
mod worker;

use util::{Report, Tier};

#[global_allocator]
static ALLOC: c18::Counting = c18::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "worker" {
        return worker::serve();
    }
    if id == "ref" {
        let src = std::fs::read_to_string(&args[2]).unwrap();
        let depth = args.get(3).and_then(|d| d.parse().ok()).unwrap_or(3);
        if let Err(e) = c01::play_reference(&src, depth) {
            println!("{e}");
        }
        return;
    }
    if id == "play" {
        return play::run(&args[2..]);
    }
    let tier = match args.iter().position(|a| a == "--tier") {
        Some(i) if args.get(i + 1).is_some_and(|t| t == "thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let budget = tier.pick(100, 780);
    let run: fn(&Report) = match id.as_str() {
        "C01" => c01::run,
        "C02" => c02::run,
        "C03" => c03::run,
        "C04" => c04::run,
        "C05" => c05::run,
        "C06" => c06::run,
        "C07" => c07::run,
        "C08" => c08::run,
        "C09" => c09::run,
        "C10" => c10::run,
        "C11" => c11::run,
        "C12" => c12::run,
        "C13" => c13::run,
        "C14" => c14::run,
        "C15" => c15::run,
        "C16" => c16::run,
        "C17" => c17::run,
        "C18" => c18::run,
        "C19" => c19::run,
        "C20" => c20::run,
        _ => {
            eprintln!("unknown check {id:?}");
            std::process::exit(2);
        }
    };
    let r = Report::new(&id, tier, budget);
    let code = match util::catch(|| run(&r)) {
        Ok(()) => r.finish(),
        Err(e) => {
            eprintln!("ENGINE ERROR: {e}");
            2
        }
    };
    std::process::exit(code);
}
