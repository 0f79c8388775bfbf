#![allow(invalid_runtime_symbol_definitions)]
//! Replays one path of one scenario on the real build of rusty-git.
//!
//! usage: native --list | native SCENARIO REPLAY ROOT
//! exit status: 0 the path ran to its end, 42 violation, 43 the replay does not fit, 44 assumption false
mod shim;
#[path = "../../scen/mod.rs"]
mod scen;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--list" {
        for (n, _) in scen::ALL {
            println!("{}", n)
        }
        return;
    }
    if a.len() < 4 {
        eprintln!("usage: native SCENARIO REPLAY ROOT");
        std::process::exit(2)
    }
    let f = match scen::ALL.iter().find(|s| s.0 == a[1]) {
        Some(s) => s.1,
        None => std::process::exit(2),
    };
    let text = std::fs::read_to_string(&a[2]).expect("replay file");
    std::panic::set_hook(Box::new(|i| shim::violation(&format!("panic {}", i))));
    shim::start(&text, &a[3]);
    f();
    shim::end();
}
