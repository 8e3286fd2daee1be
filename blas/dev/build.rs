fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=threads.c");
    assert!(std::process::Command::new("gcc").args(["-O1", "-c", "threads.c", "-o", &format!("{out}/threads.o")]).status().unwrap().success());
    println!("cargo:rustc-link-arg={out}/threads.o");
    println!("cargo:rustc-link-arg=-Wl,--unresolved-symbols=ignore-all");
}
