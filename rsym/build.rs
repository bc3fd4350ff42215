fn main() {
    // The newest libz3 in the sandbox is the one in the verification venv; fall back to the
    // system's when it is missing.
    let venv = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(venv).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={venv}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{venv}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
