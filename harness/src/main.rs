mod c_bool;
mod c_cli;
mod c_hist;
mod c_mesh;
mod c_poly;
mod c_prim;
mod c_refine;
#[cfg(feature = "show")]
mod c_show;
mod c_steps;
mod cli;
mod domain;
mod engine;
mod exact;
mod exec;
mod mesh;

use engine::*;

fn properties() -> Vec<Property> {
    #[allow(unused_mut)]
    let mut all = vec![c_prim::predicates(), c_prim::measures(), c_prim::intersections(), c_prim::equality(), c_prim::order(), c_poly::containment(), c_poly::position(), c_bool::booleans(), c_poly::segments(), c_poly::outlines(), c_mesh::tiling(), c_mesh::delaunay_prop(), c_mesh::elements(), c_mesh::links(), c_refine::domain_prop(), c_refine::elements_prop(), c_refine::bounds_prop(), c_refine::encroach_prop(), c_refine::delaunay_prop(), c_refine::idle_prop(), c_hist::insertions(), c_hist::meshes(), c_cli::output(), c_cli::composition(), c_cli::rejection(), c_cli::round(), c_steps::container(), c_steps::stepwise(), c_steps::splitting(), c_poly::meeting_points()];
    #[cfg(feature = "show")]
    all.push(c_show::window());
    all
}

fn main() {
    exec::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| std::path::PathBuf::from("/verif"));
    let props = properties();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                for s in &p.subs {
                    println!("{} {} quick={} thorough={}", p.id, s.name(), s.cases(false), s.cases(true));
                }
            }
            0
        }
        Some("replay") => replay_file(&props, std::path::Path::new(&args[2])),
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let mut o = RunOpts {
                thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                verif,
                only: None,
                scale: 1.0,
            };
            let mut i = 3;
            while i < args.len() {
                match args[i].as_str() {
                    "--tier" => o.thorough = args[i + 1] == "thorough",
                    "--seed" => o.seed = args[i + 1].parse().unwrap(),
                    "--only" => o.only = Some(args[i + 1].clone()),
                    "--scale" => o.scale = args[i + 1].parse().unwrap(),
                    a => panic!("unknown argument {a}"),
                }
                i += 2;
            }
            match props.iter().find(|p| p.id == id) {
                Some(p) => run_property(p, &o),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: vharness check <property> [--tier quick|thorough] [--seed N] [--only CHECK] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
