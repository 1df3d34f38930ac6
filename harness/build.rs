fn main() {
    // the interposed libc entry points must also be found by dlsym
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
