mod engine;
mod gram;
mod interp;
mod json;
mod lex;
mod metalang;
mod p_conv;
mod p_calls;
mod p_json;
mod p_lang;
mod p_lines;
mod p_meta;
mod p_parse;
mod p_report;
mod p_sizes;
mod p_cursor;
mod tsan;

use engine::*;
use std::path::PathBuf;

fn prop(id: &str, thorough: bool) -> Option<Prop> {
    Some(match id {
        "C01" => p_parse::prop("C01", thorough),
        "C02" => p_parse::prop("C02", thorough),
        "C03" => p_parse::prop("C03", thorough),
        "C04" => p_parse::prop("C04", thorough),
        "C05" => p_parse::prop("C05", thorough),
        "C06" => p_parse::prop("C06", thorough),
        "C07" => p_parse::c07(thorough),
        "C08" => p_lines::c08(thorough),
        "C09" => p_lines::c09(thorough),
        "C10" => p_meta::c10(thorough),
        "C11" => p_meta::c11(thorough),
        "C12" => p_meta::c12(thorough),
        "C13" => p_conv::c13(thorough),
        "C14" => p_json::c14(thorough),
        "C15" => p_report::c15(thorough),
        "C16" => p_cursor::c16(thorough),
        "C17" => p_cursor::c17(thorough),
        "C18" => p_calls::c18(thorough),
        "C19" => p_calls::c19(thorough),
        "C23" => p_calls::c23(thorough),
        "C20" => p_json::c20(thorough),
        "C21" => p_json::c21(thorough),
        "C22" => p_json::c22(thorough),
        _ => return None,
    })
}

#[global_allocator]
static ALLOC: p_calls::Alloc = p_calls::Alloc;

/// Calls that write to this process's own output.
fn helper(what: &str, i: u64) -> i32 {
    match what {
        "print" => { piston_meta::json::print(&p_json::print_case(i)); 0 }
        "stderr" | "unwrap" => {
            quiet_panics();
            let (t, r, k) = p_report::stderr_case(i);
            let e = r.wrap(p_report::errors().swap_remove(k).0);
            if what == "stderr" { piston_meta::ParseErrorHandler::new(&t).error(e); return 0; }
            if piston_meta::stderr_unwrap(&t, Ok(i)) != i { return 3; }
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| piston_meta::stderr_unwrap::<u64>(&t, Err(e)))).is_err() { 1 } else { 4 }
        }
        _ => 2,
    }
}

fn main() {
    tsan::init();
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 4 && a[1] == "helper" { std::process::exit(helper(&a[2], a[3].parse().unwrap())); }
    if a.len() < 4 { eprintln!("usage: mc supervise|worker|unit|replay ID TIER [UNIT]"); std::process::exit(2); }
    let (mode, id, tier) = (a[1].as_str(), a[2].as_str(), a[3].as_str());
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = verif.join("out").join(format!("{}-{}", id, tier));
    let o = Opts { tier: tier.into(), seed, out, verif };
    let p = match prop(id, tier == "thorough") { Some(p) => p, None => { eprintln!("unknown property {}", id); std::process::exit(2); } };
    let code = match mode {
        "supervise" => supervise(&p, &o),
        "worker" => worker(&p, &o),
        "unit" => one_unit(&p, &o, a[4].parse().unwrap(), false),
        "replay" => { std::fs::create_dir_all(&o.out).unwrap(); one_unit(&p, &o, a[4].parse().unwrap(), true) }
        "families" => { for f in &p.families { println!("{} {} {}", f.name, f.units, f.bound); } 0 }
        _ => 2,
    };
    std::process::exit(code);
}
