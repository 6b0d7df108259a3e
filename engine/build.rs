fn main() {
    // the replay runner exports vsym_* to the dlopen'ed harness library
    println!("cargo:rustc-link-arg-bin=vreplay=-rdynamic");
    println!("cargo:rustc-link-arg-bin=vreplay=-Wl,--export-dynamic");
}
