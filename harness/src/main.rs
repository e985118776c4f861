mod alloc;
mod dict;
mod engine;
mod gen;
mod htmlref;
mod model;
mod p_cross;
mod p_errors;
mod p_memory;
mod p_lazy;
mod p_lenient;
mod p_query;
mod p_sizes;
mod p_strict;
mod p_values;
mod p_xml;
mod query;
mod ser;
mod supervise;
mod tape;
mod util;
mod watch;
mod xmlref;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn props() -> Vec<engine::Prop> {
    let mut all = p_query::props();
    all.extend(p_strict::props());
    all.extend(p_lenient::props());
    all.extend(p_xml::props());
    all.extend(p_cross::props());
    all.extend(p_values::props());
    all.extend(p_lazy::props());
    all.extend(p_errors::props());
    all.extend(p_memory::props());
    all.sort_by_key(|p| p.id);
    all
}

fn env_or<T: std::str::FromStr>(name: &str, default: T) -> T {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    let seed = env_or("VERIF_SEED", 1u64);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let all = props();
    let find = |id: &str| all.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    let status = match args[..] {
        ["list"] => {
            all.iter().for_each(|p| println!("{}", p.id));
            0
        }
        ["dict"] => {
            println!("{:#}", dict::to_json());
            0
        }
        ["check", id] => supervise::check(find(id), thorough, seed),
        ["run", id] => {
            engine::install_panic_hook();
            engine::check(find(id), thorough, seed, env_or("VERIF_SCALE", 1.0))
        }
        ["replay", path] => supervise::replay(path),
        ["replay-here", path] => {
            engine::install_panic_hook();
            engine::replay(&all, path)
        }
        ["history", mode] => {
            let mut bytes = vec![];
            std::io::Read::read_to_end(&mut std::io::stdin(), &mut bytes).unwrap();
            let tape: Vec<u32> = bytes.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
            let mode = mode.to_string();
            let run = move || p_cross::history_main(&mode, &tape);
            let t = std::thread::Builder::new().stack_size(engine::STACK).spawn(run).unwrap();
            i32::from(t.join().is_err())
        }
        ["deep", kind, depth] => {
            let (kind, depth) = (kind.to_string(), depth.parse().unwrap());
            let run = move || p_strict::deep_main(&kind, depth);
            let t = std::thread::Builder::new().stack_size(8 << 20).spawn(run).unwrap();
            i32::from(t.join().is_err())
        }
        _ => {
            eprintln!("usage: vp list | check ID | replay FILE | deep KIND DEPTH");
            2
        }
    };
    std::process::exit(status);
}
