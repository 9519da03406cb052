//! The simulator for everything but the database.
use dstcore::driver::*;
use dstcore::world::Strings;
use dstcore::*;

#[global_allocator]
static A: ctx::SimAlloc = ctx::SimAlloc;

fn main() {
    let mut it = std::env::args();
    it.next();
    let cmd = it.next().unwrap_or_default();
    let a = Args::parse(it);
    settle_process();
    let shares = [
        k0::KINDS,
        k1::KINDS,
        k2::KINDS,
        k3::KINDS,
        k4::KINDS,
        k5::KINDS,
        k6::KINDS,
        k7::KINDS,
        kx::KINDS,
    ];
    let mut kinds: Vec<&'static adapt::Kind> = shares.iter().flat_map(|s| s.iter()).collect();
    kinds.sort_by_key(|k| (k.cap, k.cache));
    run::register(kinds);
    let shares = [
        k0::WIRE,
        k1::WIRE,
        k2::WIRE,
        k3::WIRE,
        k4::WIRE,
        k5::WIRE,
        k6::WIRE,
        k7::WIRE,
    ];
    let mut kinds: Vec<&'static wire::WireKind> = shares.iter().flat_map(|s| s.iter()).collect();
    kinds.sort_by_key(|k| (k.cap, k.name));
    wire::register(kinds);
    std::process::exit(command(&cmd, &a));
}

fn command(cmd: &str, a: &Args) -> i32 {
    let file = a.get("file").map(|f| {
        let s = std::fs::read_to_string(f).expect("file");
        serde_json::from_str::<serde_json::Value>(&s).expect("json")
    });
    let prop = match &file {
        Some(f) => f["property"].as_str().unwrap_or("C01").to_string(),
        None => a.get("prop").expect("--prop").to_string(),
    };
    let world = match &file {
        Some(f) => f["world"].as_str().unwrap_or("strings").to_string(),
        None => a.get("world").unwrap_or("strings").to_string(),
    };
    match world.as_str() {
        "wire" => run_command(&mut wire::Wire::new(&prop), cmd, &prop, a, file),
        _ => run_command(&mut Strings::new(&prop), cmd, &prop, a, file),
    }
}
