//! The capacities that `check` asks for beyond the usual ones: those the code under test mentions.
fn main() {
    println!("cargo:rerun-if-env-changed=DST_CAPS");
    println!("cargo:rerun-if-changed=build.rs");
    let caps = std::env::var("DST_CAPS").unwrap_or_default();
    let caps: Vec<u8> = caps.split(',').filter_map(|n| n.parse().ok()).filter(|n| *n > 0).collect();
    let text = if caps.is_empty() {
        "pub static KINDS: &[dstcore::adapt::Kind] = &[];".to_string()
    } else {
        let caps: Vec<String> = caps.iter().map(|n| n.to_string()).collect();
        format!("dstcore::kinds!(; {});", caps.join(", "))
    };
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/kinds.rs"), text).unwrap();
}
