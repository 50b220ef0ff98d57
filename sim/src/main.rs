mod crypto;
mod driver;
mod env;
mod json;
mod observer;
mod os;
mod pki;
mod reftls;
mod s_again;
mod s_evil;
mod s_fuzz;
mod s_local;
mod s_mitm;
mod s_multi;
mod s_nego;
mod s_rng;
mod s_state;
mod s_tamper;
mod scen;
mod sut;
mod tape;
mod world;
fn main() {
    os::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(driver::main(&a));
}
