mod evo;
mod evochk;
mod ext;
mod genes;
mod giant;
mod heap;
mod longrun;
mod more;
mod onemax;
mod ops;
mod par;
mod popst;
mod pure;
mod rt;
mod sel;
mod stat;

use rt::*;
use std::sync::Mutex;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut prop = args.get(1).cloned().unwrap_or_default();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut only = None;
    let mut journal = None;
    let mut brief = false;
    let mut i = 2;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--tier" => tier = args[i + 1].clone(),
            "--seed" => seed = args[i + 1].parse().expect("seed"),
            "--brief" => brief = args[i + 1] == "1",
            "--journal" => journal = Some(args[i + 1].clone()),
            "--replay" => {
                let t = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
                prop = get("property");
                tier = get("tier");
                seed = get("seed").parse().expect("seed");
                only = Some((get("kind"), get("idx").parse().expect("idx")));
            }
            a => panic!("unknown argument {a}"),
        }
        i += 2;
    }
    install_hook();
    // quick checks take a few seconds on eight cores, thorough ones a few minutes
    let (quick, thorough) = match prop.as_str() {
        "C01" => (45, 45),
        "C02" => (120, 120),
        "C03" => (120, 120),
        "C04" => (75, 75),
        "C05" => (45, 45),
        "C06" => (240, 240),
        "C07" => (15, 20),
        "C08" => (30, 50),
        "C09" => (2, 4),
        "C10" => (300, 300),
        "C11" => (50, 60),
        "C12" => (80, 80),
        "C13" => (120, 120),
        "C14" | "C15" | "C16" => (24, 30),
        "C17" => (24, 25),
        "C18" => (90, 90),
        "C19" => (24, 30),
        "C20" => (12, 12),
        "C21" => (36, 40),
        "C22" => (20, 25),
        "C23" => (5, 12),
        "C24" => (12, 30),
        "C25" => (45, 45),
        "C26" => (18, 18),
        "C27" => (320, 320),
        "C28" => (400, 400),
        "C29" => (120, 120),
        "C30" => (1, 15),
        "C31" => (8, 8),
        "C32" => (32, 32),
        "C33" => (24, 25),
        "C34" => (40, 40),
        "C35" => (2, 3),
        "C36" => (120, 120),
        "C37" => (2, 8),
        "C39" => (40, 120),
        "C40" => (60, 150),
        "C41" => (6, 20),
        _ => (1, 1),
    };
    let ctx = Ctx {
        scale: if brief {
            1
        } else if tier == "thorough" {
            thorough
        } else {
            quick
        },
        brief,
        prop: prop.clone(),
        tier: tier.clone(),
        seed,
        only,
        journal,
        cov: Mutex::new(Cov::default()),
        rules: Mutex::new(vec![]),
        mins: Mutex::new(vec![]),
        start: Instant::now(),
    };
    start_watchdog(prop.clone(), tier, seed);
    fence("BEGIN");
    match prop.as_str() {
        "C01" => ops::c01(&ctx),
        "C02" => ops::c02(&ctx),
        "C03" => ops::c03(&ctx),
        "C04" => ops::c04(&ctx),
        "C05" => ops::c05(&ctx),
        "C06" => ops::c06(&ctx),
        "C07" => ops::c07(&ctx),
        "C08" => sel::c08(&ctx),
        "C09" => sel::c09(&ctx),
        "C10" => sel::c10(&ctx),
        "C11" => popst::c11(&ctx),
        "C12" => popst::c12(&ctx),
        "C13" => popst::c13(&ctx),
        "C14" => evochk::c14(&ctx),
        "C15" => evochk::c15(&ctx),
        "C16" => evochk::c16(&ctx),
        "C17" => evochk::c17(&ctx),
        "C18" => evochk::c18(&ctx),
        "C19" => evochk::c19(&ctx),
        "C20" => evochk::c20(&ctx),
        "C21" => evochk::c21(&ctx),
        "C22" => evochk::c22(&ctx),
        "C23" => evochk::c23(&ctx),
        "C24" => evochk::c24(&ctx),
        "C25" => evochk::c25(&ctx),
        "C26" => evochk::c26(&ctx),
        "C27" => popst::c27(&ctx),
        "C28" => popst::c28(&ctx),
        "C29" => onemax::c29(&ctx),
        "C30" => ops::c30(&ctx),
        "C31" => heap::c31(&ctx),
        "C32" => ext::c32(&ctx),
        "C33" => ext::c33(&ctx),
        "C34" => ext::c34(&ctx),
        "C35" => ext::c35(&ctx),
        "C36" => pure::c36(&ctx),
        "C37" => par::c37(&ctx),
        "C39" => more::c39(&ctx),
        "C40" => more::c40(&ctx),
        "C41" => more::c41(&ctx),
        p => inconclusive(&format!("unknown property {p:?}")),
    }
    ctx.finish()
}
