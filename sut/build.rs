//! Copies the real `main` functions of the three binaries out of /repo so that
//! they can be compiled into the shared object unchanged (only inner attributes
//! and inner doc comments, which `include!` does not accept, are dropped), each
//! followed by an entry point that ends the process the way `lang_start` would.
use std::{env, fs, path::Path};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rustc-env=CARGO_PKG_NAME=smd");
    for (src, dst) in [
        ("/repo/smd/src/main.rs", "smd_main.rs"),
        ("/repo/smd/src/bin/mangen.rs", "mangen_main.rs"),
        ("/repo/smd/src/bin/completion.rs", "completion_main.rs"),
    ] {
        println!("cargo:rerun-if-changed={src}");
        let text = fs::read_to_string(src).expect(src);
        let mut body = String::new();
        for line in text.lines() {
            let t = line.trim_start();
            if t.starts_with("//!") {
                body.push_str("// ");
            }
            if t.starts_with("#![") && t.ends_with(']') {
                body.push_str("// ");
            }
            // modules beside the file, and paths from the root of its crate
            let mut line = line.to_string();
            if let Some(m) = t.strip_prefix("pub ").unwrap_or(t).strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
                let dir = Path::new(src).parent().unwrap();
                let file = [dir.join(format!("{m}.rs")), dir.join(m).join("mod.rs")].into_iter().find(|f| f.exists());
                if let Some(f) = file {
                    println!("cargo:rerun-if-changed={}", f.display());
                    line = format!("#[path = {f:?}] {t}");
                }
            }
            body.push_str(&line.replace("crate::", &format!("crate::{}::", dst.trim_end_matches(".rs"))));
            body.push('\n');
        }
        body.push_str(
            "\npub(crate) fn __sim_entry() -> ! {\n\
             \tlet code = ::std::process::Termination::report(main());\n\
             \tcode.exit_process()\n}\n",
        );
        fs::write(Path::new(&out).join(dst), body).unwrap();
    }
}
