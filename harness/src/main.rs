use gvasprop::{alloc, props, runner};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    runner::install_hook();
    let find = |id: &str| match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            std::process::exit(2);
        }
    };
    let seed = |s: &str| s.parse::<u64>().unwrap_or_else(|_| gvasprop::src::fnv(s.as_bytes()));
    let code = match a.as_slice() {
        ["list"] => {
            props::ALL.iter().for_each(|p| println!("{}", p.id));
            0
        }
        ["check", id, tier] => {
            let s = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
            runner::check(find(id), *tier == "thorough", seed(&s))
        }
        ["worker", id, tier, s, dir] => runner::worker(find(id), *tier == "thorough", seed(s), std::path::Path::new(dir)),
        ["one", id, tier, s, what] => runner::one(find(id), *tier == "thorough", seed(s), what),
        ["replay", path] => runner::replay(props::ALL, path),
        _ => {
            eprintln!("usage: gvasprop list | check <id> quick|thorough | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
