//! Native re-execution of a solver counterexample: `replay <harness> <values>`.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(vh_asset::native::replay(&a[1], &a[2]));
}
