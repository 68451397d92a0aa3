#[path = "../../common/vrf.rs"]
pub mod vrf;
mod esc;
mod script;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    vrf::native::load(&a[2]);
    match a[1].as_str() {
        "h_esc" => esc::h_esc(),
        "h_names" => script::h_names(),
        "h_logic" => script::h_logic(),
        "h_same" => script::h_same(),
        _ => std::process::exit(2),
    }
    println!("REPLAY-OK");
}
