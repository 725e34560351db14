//! The programs of the crate under test become modules of the harness: their sources, without the
//! inner attributes, which an included file cannot have.
use std::{env, fs, path::Path};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    for b in ["splr", "dmcr"] {
        let p = format!("/repo/src/bin/{b}.rs");
        println!("cargo:rerun-if-changed={p}");
        let mut s = fs::read_to_string(&p).unwrap_or_default();
        while let Some(i) = s.find("#![") {
            let n = s[i..].find(']').unwrap_or(s.len() - i - 1);
            s.replace_range(i..=i + n, "");
        }
        s.push_str("\npub fn verif_run() -> std::process::ExitCode {\n    std::process::Termination::report(main())\n}\n");
        fs::write(Path::new(&out).join(format!("{b}.rs")), s).unwrap();
    }
}
