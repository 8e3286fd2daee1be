fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=fake.c");
    assert!(std::process::Command::new("gcc").args(["-O1", "-c", "fake.c", "-o", &format!("{out}/fake.o")]).status().unwrap().success());
    println!("cargo:rustc-link-arg={out}/fake.o");
    // the stand-ins take the place of OpenBLAS' own functions for the number of threads; of the other libraries only
    // these functions exist here, and nothing else of them is called
    println!("cargo:rustc-link-arg=-lopenblas");
    println!("cargo:rustc-link-arg=-Wl,--unresolved-symbols=ignore-all");
}
