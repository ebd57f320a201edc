#![allow(dead_code)]
mod conv;
mod damage;
mod disk;
mod gen;
mod model;
mod enc;
mod ops;
mod p_cause;
mod p_conc;
mod p_data;
mod p_edit;
mod p_graph;
mod p_load;
mod p_parse;
mod p_save;
mod p_view;
mod refexp;
mod refparse;
mod refval;
mod rng;
mod scen;
mod sched;
mod ses;
mod sys;
mod xmlw;

use scen::{Prop, Tier};

static PROPS: &[&Prop] = &[&p_load::C01, &p_save::C02, &p_save::C03, &p_save::C04, &p_conc::C05, &p_graph::C07, &p_graph::C08, &p_graph::C12, &p_parse::C09, &p_parse::C10, &p_parse::C11, &p_edit::C06, &p_edit::C17, &p_data::C18, &p_save::C13, &p_save::C16, &p_view::C14, &p_view::C15, &p_cause::C19];

fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            std::process::exit(2)
        }
    }
}

fn main() {
    sys::fixed_addresses();
    scen::hook();
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let seed: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = Tier {
        thorough: arg(3) == "thorough" || arg(3).is_empty() && env("VERIF_TIER").as_deref() == Some("thorough"),
    };
    let code = match arg(1) {
        "check" => scen::check(prop(arg(2)), tier, seed),
        "replay" => match scen::read_replay(arg(2)) {
            Some((id, runs, class)) => {
                std::env::set_var("SVDSIM_VERBOSE", "1");
                match scen::eval(prop(&id), &runs, true) {
                    scen::Out::Ok(_) => {
                        println!("{id}: held");
                        0
                    }
                    scen::Out::Viol(c, m) => {
                        println!("{id}: {c}: {m}{}", if c == class { "" } else { " (recorded with another class)" });
                        println!("VIOLATION property={id} replay={}", arg(2));
                        1
                    }
                }
            }
            None => 2,
        },
        "one" => {
            std::env::set_var("SVDSIM_VERBOSE", "1");
            let p = prop(arg(2));
            let i: u64 = arg(3).parse().unwrap_or(0);
            let sc = scen::scenario(p, seed, i, &Tier { thorough: false });
            println!("{}", serde_json::to_string(&sc).unwrap());
            println!("{:?}", scen::eval(p, &[sc], true));
            0
        }
        "determinism" => {
            let n = arg(3).parse().unwrap_or(1000);
            let mut bad = 0;
            for p in PROPS {
                if arg(2) == "all" || arg(2) == p.id {
                    bad += scen::determinism(p, seed, n);
                }
            }
            (bad > 0) as i32
        }
        _ => {
            eprintln!("check PROP [quick|thorough] | replay FILE | one PROP INDEX | determinism PROP|all N");
            2
        }
    };
    std::process::exit(code);
}
