use std::path::Path;
fn main() {
    // Prefer the newer libz3 shipped with the python wheel, fall back to the system one.
    let d = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::env::var("SYMEX_SYSTEM_Z3").is_err() && Path::new(&format!("{d}/libz3.so")).exists() {
        println!("cargo:rustc-link-search=native={d}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{d}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
