mod api;
mod case;
mod engine;
mod families;
mod gen;
mod geom;
mod json;
#[cfg(feature = "ub")]
mod mem;
#[cfg(feature = "internals")]
#[macro_use]
mod obs;
#[cfg(feature = "front")]
mod front;
#[cfg(feature = "store")]
mod store;
mod oracle;
mod plans;
mod props;
mod step;

use engine::Tier;

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let usage = || -> ! {
        eprintln!("usage: p2t-mc check PROPERTY | replay FILE");
        std::process::exit(2)
    };
    if args.len() < 3 {
        usage();
    }
    if args[1] == "replay" {
        let text = std::fs::read_to_string(&args[2]).expect("replay file");
        let prop = json::field(&text, "property").expect("property");
        let t = json::field(&text, "tier").unwrap_or_default();
        // the child processes see the same plan
        std::env::set_var("VERIF_TIER", &t);
        let tier = if t == "thorough" { Tier::Thorough } else { Tier::Quick };
        let plan = plans::plan(&prop, tier).unwrap_or_else(|| usage());
        std::process::exit(engine::replay(&plan, &text));
    }
    #[cfg(feature = "ub")]
    if args[1] == "slice" {
        let n = |k: usize| args[k].parse::<u64>().unwrap();
        mem::slice(tier == Tier::Quick, n(2) as usize, n(3), n(4));
        return;
    }
    let Some(plan) = plans::plan(&args[2], tier) else {
        eprintln!("this build knows no property {}", args[2]);
        std::process::exit(2);
    };
    let code = match args[1].as_str() {
        "check" => {
            let c = engine::check(&plan);
            api::remove_scratch();
            c
        }
        "worker" => {
            let skip: Vec<(usize, u64)> = args[6..]
                .iter()
                .map(|s| {
                    let (a, b) = s.split_once(':').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect();
            engine::worker(&plan, &args[3], &args[4], args[5].parse().unwrap(), &skip)
        }
        "one" => engine::one(&plan, args[3].parse().unwrap(), args[4].parse().unwrap()),
        _ => usage(),
    };
    std::process::exit(code);
}
