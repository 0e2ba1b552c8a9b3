fn main() {
    // the interposed libc symbols must win every lookup, including std's dlsym ones
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
    println!("cargo:rustc-link-arg-bins=-ldl");
    // the solver seam of the bit-vector domains
    for f in ["Z3_solver_check", "Z3_solver_check_assumptions", "Z3_set_param_value", "Z3_global_param_set", "Z3_params_set_uint"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={}", f);
    }
    println!("cargo:rerun-if-changed=build.rs");
}
