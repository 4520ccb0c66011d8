//! Makes the configuration of the command line tool, which is part of a crate that can't
//! be built for wasm, a module of this one.
fn main() {
    let manifest = std::fs::read_to_string("Cargo.toml").unwrap();
    let path = manifest.lines().find_map(|l| l.strip_prefix("oxvg_path = { path = \"")).unwrap();
    let crates = path.split("/oxvg_path").next().unwrap();
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/config.rs"), format!("#[path = \"{crates}/oxvg/src/config.rs\"]\npub mod config;\n")).unwrap();
    println!("cargo:rerun-if-changed=Cargo.toml");
    println!("cargo:rerun-if-changed=build.rs");
}
