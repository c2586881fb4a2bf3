//! Bounded search for inputs of the real code that break a property.
//! usage: refuter <property> [--seed N] [--tier quick|thorough] [--scale F] [--max-secs N]
//!                [--out FILE] [--trace FILE] [--known FILE] [--dict FILE]
//! exit 0: nothing found; 1: a failing input was found; 3: a case hung (see --trace).
mod dict;
mod props_ctx;
mod props_wire;
mod rng;
mod run;
mod src;
mod wire;

use run::Run;
use std::time::{Duration, Instant};

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let max_secs: u64 = get("--max-secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 60 });
    if let Some(f) = get("--dict") { dict::load(&f); }
    let known = get("--known").and_then(|f| std::fs::read_to_string(f).ok())
        .map(|s| s.lines().map(String::from).filter(|l| !l.trim().is_empty()).collect()).unwrap_or_default();
    let mut run = Run {
        prop: prop.clone(),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough,
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        evaluations: 0,
        distinct: Default::default(),
        samples: vec![],
        failure: None,
        skipped: 0,
        deadline: Instant::now() + Duration::from_secs(max_secs),
        trace: get("--trace"),
        exhaustive_parts: vec![],
        known,
        known_hit: vec![],
    };
    let out = get("--out");
    run::install_panic_hook();
    run::watchdog(20, 6000);
    let t0 = Instant::now();
    let h = std::thread::Builder::new()
        .stack_size(1 << 29)
        .spawn(move || {
            match run.prop.as_str() {
                "C01" => props_wire::c01(&mut run),
                "C02" => props_wire::c02(&mut run),
                "C03" => props_wire::c03(&mut run),
                "C04" => props_wire::c04(&mut run),
                "C05" => props_wire::c05(&mut run),
                "C06" => props_wire::c06(&mut run),
                "C07" => props_wire::c07(&mut run),
                "C08" => props_wire::c08(&mut run),
                "C09" => props_wire::c09(&mut run),
                "C19" => props_wire::c19(&mut run),
                "C10" => props_ctx::c10(&mut run),
                "C11" => props_ctx::c11(&mut run),
                "C12" => props_ctx::c12(&mut run),
                "C13" => props_ctx::c13(&mut run),
                "C14" => props_ctx::c14(&mut run),
                "C15" => props_ctx::c15(&mut run),
                "C16" => props_ctx::c16(&mut run),
                "C17" => props_ctx::c17(&mut run),
                "C18" => props_ctx::c18(&mut run),
                p => {
                    eprintln!("unknown property {}", p);
                    std::process::exit(2);
                }
            }
            run
        })
        .unwrap();
    let run = match h.join() {
        Ok(r) => r,
        Err(_) => {
            // Outside of a case: the property's set-up could not run on this tree.
            println!("SETUP-PANIC");
            std::process::exit(4);
        }
    };
    let mut j = format!(
        "{{\"property\":{},\"seed\":{},\"tier\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"skipped_setups\":{},\"exhaustive_parts\":{},\"samples\":{},\"known_hit\":{},\"wall_s\":{:.2}",
        json_str(&run.prop), run.seed, json_str(if run.thorough { "thorough" } else { "quick" }), run.evaluations,
        run.distinct.len(), run.skipped, json_list(&run.exhaustive_parts), json_list(&run.samples), json_list(&run.known_hit), t0.elapsed().as_secs_f64()
    );
    if let Some(f) = &run.failure {
        j.push_str(&format!(",\"failure\":{{\"case\":{},\"input\":{},\"what\":{}}}", f.case, json_str(&f.input), json_str(&f.what)));
    }
    j.push('}');
    match out {
        Some(p) => std::fs::write(p, &j).unwrap(),
        None => println!("{}", j),
    }
    if let Some(f) = &run.failure {
        println!("FAILED case {}: {}", f.case, f.what.chars().take(400).collect::<String>());
        std::process::exit(1);
    }
}
