mod count;
#[path = "../../common/vrf.rs"]
pub mod vrf;

/// the program itself
#[allow(dead_code)]
mod program {
    include!("/repo/amzn-smt-prediction/src/main.rs");
    pub fn run() {
        // whatever `main` returns, an error is a failure
        assert!(matches!(main(), Ok(())), "the program ends well");
    }
}

fn main() {
    if std::env::var("VRF_PROGRAM").is_ok() {
        return program::run();
    }
    let a: Vec<String> = std::env::args().collect();
    vrf::native::load(&a[2]);
    match a[1].as_str() {
        "h_count" => count::h_count(),
        _ => std::process::exit(2),
    }
    println!("REPLAY-OK");
}
