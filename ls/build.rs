//! The modules of the language server, as its main.rs declares them.
use std::fmt::Write;

fn main() {
    let dir = "/repo/ginko_ls/src";
    println!("cargo:rerun-if-changed={dir}");
    println!("cargo:rustc-check-cfg=cfg(gv_replay)");
    if std::env::var("CARGO_PKG_NAME").unwrap() == "ls-replay" {
        println!("cargo:rustc-cfg=gv_replay");
    }
    let mut out = String::new();
    for l in std::fs::read_to_string(format!("{dir}/main.rs")).unwrap().lines() {
        let Some(m) = l.trim().strip_suffix(';').and_then(|l| l.rsplit_once("mod ")) else { continue };
        if !matches!(m.0, "" | "pub " | "pub(crate) ") {
            continue;
        }
        let name = m.1;
        let file = [format!("{dir}/{name}.rs"), format!("{dir}/{name}/mod.rs")].into_iter().find(|f| std::path::Path::new(f).exists()).unwrap();
        writeln!(out, "#[allow(dead_code)]\n#[path = {file:?}]\nmod {name};").unwrap();
    }
    std::fs::write(format!("{}/mods.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
