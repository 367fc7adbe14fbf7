use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/sched.o");
    let st = Command::new("gcc").args(["-O2", "-fPIC", "-c", "csrc/sched.c", "-o", &o]).status().unwrap();
    assert!(st.success());
    println!("cargo:rustc-link-arg-bins={o}");
    println!("cargo:rerun-if-changed=csrc/sched.c");
}
