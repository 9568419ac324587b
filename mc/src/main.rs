//! Explicit-state exploration of the phonenumber library.  See ../../DESIGN.md.

mod checks;
mod imp;
mod meta;
mod product;
mod run;
mod rx;
mod spec;
mod univ;
mod xml;

use run::{Ctx, Tier};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    match args.get(2).map(|s| s.as_str()) {
        Some("quick") => tier = Tier::Quick,
        Some("thorough") => tier = Tier::Thorough,
        Some("replay") => {
            let s = std::fs::read_to_string(&args[3]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay file");
            if v["tier"] == "thorough" {
                tier = Tier::Thorough;
            }
            only = Some(v["case"].as_str().expect("case").to_string());
        }
        _ => (),
    }
    let Some((_, f)) = checks::ALL.iter().find(|c| c.0 == id) else {
        eprintln!("usage: mc <property> [quick|thorough|replay FILE]; properties: {:?}", checks::ALL.map(|c| c.0));
        std::process::exit(2);
    };
    let rc = run::supervise(&id, || {
        run::install_hook();
        let ctx = Ctx::new(&id, tier, only);
        // an exploration stopped by what it found may well stumble afterwards
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&ctx)));
        if let (Err(e), false) = (r, ctx.any()) {
            std::panic::resume_unwind(e);
        }
        ctx.finish()
    });
    std::process::exit(rc);
}
