mod alloc;
mod engine;
mod exhaust;
mod gen;
mod interpose;
mod net;
mod programs;
mod props;
mod refdns;
mod sim;
mod srv;
mod zone;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    engine::install_panic_hook();
    // Colors must not depend on where the output goes.
    std::env::remove_var("NO_COLOR");
    std::env::set_var("CLICOLOR_FORCE", "1");
    let prop = |id: &str| props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id));
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::ALL {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
        }
        Some("child-exhaust") => std::process::exit(exhaust::child(&args[2])),
        Some("run") => {
            let p = prop(&args[2]);
            let tier = arg(&args, "--tier").unwrap_or("quick".into());
            let cases = match arg(&args, "--cases") {
                Some(c) => c.parse().unwrap(),
                None if tier == "thorough" => p.thorough,
                None => p.quick,
            };
            let o = engine::RunOpts {
                seed: arg(&args, "--seed").map_or(1, |s| s.parse().unwrap()),
                cases,
                out: arg(&args, "--out").unwrap_or("/dev/stdout".into()),
                slots: arg(&args, "--slots").unwrap_or(format!("/dev/shm/ariadne-check-slots-{}", std::process::id())),
                known: arg(&args, "--known").map_or(vec![], |s| {
                    s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
                }),
                profile: arg(&args, "--profile").unwrap_or("release".into()),
                tier,
            };
            let own_slots = arg(&args, "--slots").is_none();
            let c = engine::run(p, &o);
            if own_slots {
                let _ = std::fs::remove_file(&o.slots);
            }
            std::process::exit(c);
        }
        Some("replay") => {
            let p = prop(&args[2]);
            let seed = arg(&args, "--case-seed").map(|s| s.parse().unwrap());
            let seq = arg(&args, "--file").map(|f| {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
                v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
            });
            let out = arg(&args, "--out");
            std::process::exit(engine::replay(p, seq, seed, out.as_deref()));
        }
        _ => {
            eprintln!("usage: ariadne-check run ID | replay ID | list");
            std::process::exit(2);
        }
    }
}
