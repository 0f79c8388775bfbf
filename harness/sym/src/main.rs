#[path = "../../scen/mod.rs"]
mod scen;

#[no_mangle]
pub extern "C" fn sx_main(idx: u64) {
    (scen::ALL[idx as usize].1)()
}

fn main() {
    // keeps the entry point alive; never run
    sx_main(std::env::args().count() as u64)
}
