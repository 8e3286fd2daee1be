fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=tblis.c");
    assert!(std::process::Command::new("gcc").args(["-O1", "-Wall", "-c", "tblis.c", "-o", &format!("{out}/tblis.o")]).status().unwrap().success());
    println!("cargo:rustc-link-arg={out}/tblis.o");
}
