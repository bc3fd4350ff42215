fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/rt.o");
    let st = std::process::Command::new("cc").args(["-O1", "-c", "rt/rt.c", "-o", &o]).status().unwrap();
    assert!(st.success());
    println!("cargo:rustc-link-arg-bins={o}");
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
