// Calls of the curve arithmetic go through the cache in src/curve.rs.
fn main() {
    for f in ["pedersen_commit", "generator_generate_blinded"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap=rustsecp256k1zkp_v0_10_0_{f}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
