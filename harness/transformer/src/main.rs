mod many;
mod map;
mod recon;
mod shape;
#[path = "../../common/vrf.rs"]
pub mod vrf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    vrf::native::load(&a[2]);
    match a[1].as_str() {
        "h_names" => many::h_names(),
        "h_vars" => many::h_vars(),
        "h_lits" => many::h_lits(),
        "c_all" => many::c_all(),
        "h_eq" => map::h_eq(),
        "h_len" => map::h_len(),
        "h_sub" => map::h_sub(),
        "h_cat" => map::h_cat(),
        "h_pos" => map::h_pos(),
        "h_int" => map::h_int(),
        "h_range" => map::h_range(),
        "c_mix" => map::c_mix(),
        "c_range" => map::c_range(),
        "h_shape" => shape::h_shape(),
        "h_subs" => shape::h_subs(),
        "h_recon" => recon::h_recon(),
        "h_outcome" => recon::h_outcome(),
        "h_truth" => map::h_truth(),
        "c_truth" => map::c_truth(),
        "h_trange" => map::h_trange(),
        "c_trange" => map::c_trange(),
        "h_len2" => map::h_len2(),
        "h_sub2" => map::h_sub2(),
        "h_int2" => map::h_int2(),
        "h_range2" => map::h_range2(),
        "c_mix2" => map::c_mix2(),
        "h_refuse2" => map::h_refuse2(),
        "h_refuse" => map::h_refuse(),
        _ => std::process::exit(2),
    }
    println!("REPLAY-OK");
}
