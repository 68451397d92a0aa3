#[path = "../../common/vrf.rs"]
pub mod vrf;
mod fams;
mod gen;
mod misc;
mod sat;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("VRF_SAT").is_ok() || a.len() == 1 {
        return sat::native_solver();
    }
    if a[1] == "solve" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        match amzn_smt_eager_arithmetic::solve_with_varisat(t.as_bytes()) {
            Ok(Some(m)) => println!("SAT {}", m),
            Ok(None) => println!("UNSAT"),
            Err(e) => println!("ERR {:?}", e),
        }
        return;
    }
    vrf::native::load(&a[2]);
    std::env::set_var("VRF_SAT", &a[2]);
    match a[1].as_str() {
        "h_cmp" => fams::h_cmp(),
        "h_chain" => fams::h_chain(),
        "h_sum" => fams::h_sum(),
        "h_bool" => fams::h_bool(),
        "h_let" => fams::h_let(),
        "h_ite" => fams::h_ite(),
        "h_diff" => fams::h_diff(),
        "h_eql" => fams::h_eql(),
        "h_gen" => fams::h_gen(),
        "h_wide" => fams::h_wide(),
        "h_uf" => fams::h_uf(),
        "h_bv" => misc::h_bv(),
        "h_reject" => misc::h_reject(),
        "h_small" => misc::h_small(),
        "h_mult" => fams::h_mult(),
        "h_far" => fams::h_far(),
        _ => std::process::exit(2),
    }
    println!("REPLAY-OK");
}
