#![allow(dead_code)]
mod engine;
mod src;
mod refdfa;
mod regen;
mod props;

use engine::*;
use std::path::Path;

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let usage = || -> ! {
        eprintln!("usage: vh check ID | replay FILE | list");
        std::process::exit(2)
    };
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    fn mode<'a>(p: &'a Prop, m: &str) -> &'a Mode {
        p.modes.iter().find(|x| x.name == m).expect("mode")
    }
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let num = |s: &str| s.parse::<u64>().expect("number");
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => {
            let t = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.trim().parse::<i64>().ok())
                .unwrap_or(1);
            check(find(&a[2]), t, seed as u64)
        }
        Some("worker") if a.len() == 9 => {
            let p = find(&a[2]);
            worker(p, mode(p, &a[3]), tier(&a[4]), num(&a[5]), num(&a[6]), num(&a[7]), Path::new(&a[8]));
            0
        }
        Some("shrink") if a.len() == 7 => {
            let p = find(&a[2]);
            shrink_cmd(mode(p, &a[3]), tier(&a[4]), Path::new(&a[5]), num(&a[6]));
            0
        }
        Some("one") if a.len() == 6 => {
            let p = find(&a[2]);
            one_cmd(mode(p, &a[3]), tier(&a[4]), Path::new(&a[5]))
        }
        Some("crashlog") if a.len() == 8 => {
            let p = find(&a[2]);
            crashlog_cmd(p, mode(p, &a[3]), tier(&a[4]), num(&a[5]), num(&a[6]), Path::new(&a[7]));
            0
        }
        Some("replay") if a.len() == 3 => replay_cmd(&props, Path::new(&a[2])),
        Some("list") => {
            for p in &props {
                println!("{}: {}", p.id, p.modes.iter().map(|m| m.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
