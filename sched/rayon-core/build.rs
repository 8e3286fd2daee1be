use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=race.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/race.o");
    assert!(Command::new("gcc").args(["-O2", "-g0", "-fno-builtin", "-c", "race.c", "-o", &obj]).status().unwrap().success());
    let lib = format!("{out}/librace.a");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=race");
}
