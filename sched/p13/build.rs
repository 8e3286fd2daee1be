fn main() {
    for s in ["memcpy", "memmove", "memset", "memcmp", "malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc"] {
        println!("cargo:rustc-link-arg=-Wl,--wrap={s}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
