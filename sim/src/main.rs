mod client;
mod codec;
mod dict;
mod engine;
mod names;
mod ops;
mod runner;
mod server;
mod tcp;
mod wire;
mod world;

use runner::Prop;

pub static PROPS: &[Prop] = &[tcp::C01, tcp::C02, tcp::C03, tcp::C04, tcp::C05, tcp::C06, tcp::C07, client::C08, client::C09, client::C10, client::C11, client::C12, client::C13, wire::C14, server::C15, server::C16, server::C17, server::C18, server::C19, server::C20, server::C21, client::e2e::C22, codec::C23, names::C24];

fn main() {
    engine::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(String::as_str).collect();
    let find = |id: &str| PROPS.iter().find(|p| p.id == id);
    let code = match s.as_slice() {
        ["check", id, tier] => find(id).map(|p| runner::supervise(p, tier)),
        ["child", id, tier] => find(id).map(|p| runner::check(p, tier)),
        ["one", id, idx] => find(id).and_then(|p| Some(runner::one(p, idx.parse().ok()?))),
        ["seq", id, a, b, t] => find(id).and_then(|p| Some(runner::seq(p, a.parse().ok()?, b.parse().ok()?, t.parse().ok()?))),
        ["sigs", id, n] => find(id).and_then(|p| Some(runner::sigs(p, n.parse().ok()?))),
        ["replay", f] => Some(runner::replay(std::path::Path::new(f), PROPS)),
        ["list"] => {
            PROPS.iter().for_each(|p| println!("{}", p.id));
            Some(0)
        }
        _ => None,
    };
    std::process::exit(code.unwrap_or_else(|| {
        eprintln!("usage: tpmsim check <property> <quick|thorough> | replay <file> | list");
        3
    }));
}
