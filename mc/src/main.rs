#![allow(static_mut_refs)]
mod checks;
mod conc;
mod crash;
mod durable;
mod faults;
mod fw;
mod iterx;
mod gate;
mod leak;
mod locks;
mod model;
mod more;
mod rules;
mod seq;
mod space;
mod shapes;
mod inputs;
mod util;
#[global_allocator]
static A: mcrt::arena::Alloc = mcrt::arena::Alloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let tier = match a.get(3).map(|s| s.as_str()) {
        Some("thorough") => fw::Tier::Thorough,
        _ => fw::Tier::Quick,
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let Some(s) = checks::all().into_iter().find(|s| s.id == a[2]) else {
                eprintln!("unknown property {}", a[2]);
                std::process::exit(2)
            };
            std::process::exit(fw::main_check(&s, tier, &verif))
        }
        Some("unit") => {
            let s = checks::all().into_iter().find(|s| s.id == a[2]).expect("property");
            let us = (s.units)(tier);
            let n: u64 = a[4].parse().unwrap();
            println!("{}", us[n as usize].label);
            let o = fw::run_units(&us, tier, 100000, &fw::load_known(&verif, s.id), Some(n), true);
            for v in &o.viols {
                println!("{} {}", v.1, v.2);
            }
            println!("{:?} {:?}", o.cnt, o.unconfirmed);
        }
        Some("lockchild") => std::process::exit(locks::child()),
        Some("list") => {
            for s in checks::all() {
                println!("{} {} {}", s.id, (s.units)(fw::Tier::Quick).len(), (s.units)(fw::Tier::Thorough).len());
            }
        }
        _ => {
            eprintln!("usage: mc check|unit|list");
            std::process::exit(2)
        }
    }
}
