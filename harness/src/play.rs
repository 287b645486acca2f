//! `mc play file [depth]`: shows every play sequence (for people).
use crate::{host::*, prog};
pub fn run(args: &[String]) {
    let src = std::fs::read_to_string(&args[0]).unwrap();
    let depth = args.get(1).and_then(|d| d.parse().ok()).unwrap_or(12);
    let p = if args[0].ends_with(".json") {
        prog::Prog::from_json("x", "", &src)
    } else {
        match prog::from_source("x", &src) {
            Ok(p) => p,
            Err(e) => {
                println!("{e}");
                return;
            }
        }
    };
    if args.iter().any(|a| a == "json") {
        println!("{}", p.json);
    }
    let cfg = Cfg {
        seed: Some(1),
        ..Default::default()
    };
    let mut budget = 60;
    let full = args.iter().any(|a| a == "full");
    println!(
        "{}",
        futures(
            &|| Host::new(&p, &cfg).map_err(|e| println!("{e}")).ok(),
            depth,
            &mut budget,
            full
        )
    );
}
