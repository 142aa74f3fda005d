use std::path::Path;

fn main() {
    // The interposed libc functions must win over glibc's also for dlsym lookups.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");

    // the program's own main function, to be included in a module
    let main = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/src/main.rs");
    println!("cargo:rerun-if-changed={}", main.display());
    let text = std::fs::read_to_string(&main).unwrap_or_default();
    let mut head = true;
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if head && (t.starts_with("#![") || t.starts_with("//!")) {
            continue;
        }
        if !t.is_empty() && !t.starts_with("//") {
            head = false;
        }
        out += line;
        out.push('\n');
    }
    let dir = std::env::var("OUT_DIR").expect("OUT_DIR");
    std::fs::write(Path::new(&dir).join("broker_main.rs"), out).expect("write");
}
