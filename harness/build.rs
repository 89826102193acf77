use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt.c");
    println!("cargo:rerun-if-changed=build.rs");
    // Miri cannot call C; the runtime is left out there (see src/rt.rs)
    if std::env::var("FXDMON_NO_RT").is_ok() {
        return;
    }
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/rt.o");
    let a = format!("{out}/libfxdrt.a");
    assert!(Command::new("gcc").args(["-O2", "-fPIC", "-c", "rt.c", "-o", &o]).status().expect("gcc").success());
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=fxdrt");
}
