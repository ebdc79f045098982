//! Model checker for rmitsuboshi/miniboosts: every property is decided by
//! exhaustive enumeration of executions of the real library within bounds.
#[macro_use]
mod fw;
mod boost;
mod p_data;
mod p_exp;
mod p_feat;
mod p_graph;
mod p_life;
mod p_lp;
mod p_misc;
mod p_more;
mod p_net;
mod p_sched;
mod p_step;
mod p_tree;
mod util;
mod wide;

use fw::{Run, Tier};

fn main() {
    let mut args = std::env::args().skip(1);
    let id = args.next().unwrap_or_default();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    let mut root = std::path::PathBuf::from(
        std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()),
    );
    while let Some(a) = args.next() {
        match a.as_str() {
            "--tier" => {
                tier = match args.next().as_deref() {
                    Some("thorough") => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--root" => root = args.next().unwrap_or_default().into(),
            "--replay" => {
                let p = args.next().unwrap_or_default();
                let s = std::fs::read_to_string(&p).unwrap_or_else(|e| {
                    println!("cannot read {p}: {e}");
                    std::process::exit(2)
                });
                let v: serde_json::Value = serde_json::from_str(&s).unwrap();
                replay = Some(v["key"].as_str().unwrap().to_string());
                if v["tier"] == "thorough" {
                    tier = Tier::Thorough;
                }
            }
            _ => {
                println!("unknown argument {a}");
                std::process::exit(2);
            }
        }
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    fw::silence();
    fw::install_panic_hook();
    let mut run = Run::new(&id, tier, seed, replay, root);
    run.whole(|run| match id.as_str() {
        "C01" => p_life::c01(run),
        "C12" => p_life::c12(run),
        "C13" => p_life::c13(run),
        "C14" => p_lp::c14(run),
        "C15" => p_data::c15(run),
        "C16" => p_data::c16(run),
        "C17" => p_feat::c17(run),
        "C18" => p_feat::c18(run),
        "C19" => p_tree::c19(run),
        "C20" => p_tree::c20(run),
        "C21" => p_misc::c21(run),
        "C22" => p_misc::c22(run),
        "C23" => p_more::c23(run),
        "C25" => p_more::c25(run),
        "C26" => p_sched::c26(run),
        "C27" => p_more::c27(run),
        "C28" => p_net::c28(run),
        "C29" => p_more::c29(run),
        "C24" => p_misc::c24(run),
        "C02" => p_exp::c02(run),
        "C03" => p_exp::c03(run),
        "C04" => p_exp::c04(run),
        "C05" => p_exp::c05(run),
        "C06" => p_graph::c06(run),
        "C07" => p_lp::c07(run),
        "C08" => p_lp::c08(run),
        "C09" => p_lp::c09(run),
        "C10" => p_lp::c10(run),
        "C11" => p_lp::c11(run),
        _ => {
            fw::say(&format!("unknown property {id}"));
            std::process::exit(2);
        }
    });
    std::process::exit(run.finish());
}
