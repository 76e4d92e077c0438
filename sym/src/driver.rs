//! Command line of every check binary: explore, replay, write evidence, print the verdict.
use crate::engine::*;
use std::collections::BTreeSet;
use std::time::{Duration, Instant};

pub struct Check {
    pub property: &'static str,
    pub functions: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub harnesses: Vec<Harness>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T: AsRef<str>>(v: &[T]) -> String { format!("[{}]", v.iter().map(|s| js(s.as_ref())).collect::<Vec<_>>().join(", ")) }

pub fn run(check: Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let flag = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let has = |n: &str| args.iter().any(|a| a == n);
    let tier = flag("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed: u32 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    if let Some(f) = flag("--replay") {
        replay(&check, &f);
    }
    let mut hs: Vec<Harness> = check.harnesses.into_iter().filter(|h| thorough || !h.thorough).collect();
    if let Some(o) = flag("--only") { hs.retain(|h| h.name.contains(&o)); }
    if has("--list") {
        for h in &hs { println!("{:40} {:?} {}", h.name, h.mode, h.bounds); }
        std::process::exit(0);
    }
    let verbose = has("-v") || has("--verbose");
    let budget = flag("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 560 });
    let t0 = Instant::now();
    match std::env::var("VSYM_CRUMBS") {
        Ok(f) => crate::watch::attach(&f),
        Err(_) => match crate::watch::supervise(&hs, Duration::from_secs(budget + 120)) {
            crate::watch::Outcome::Exit(c) => std::process::exit(c),
            crate::watch::Outcome::Bad { harness, values, what, .. } => {
                let ev = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": 1,\n  \"transitions\": 1,\n  \"traces_validated_against_impl\": 1,\n  \"samples\": [{}],\n  \"exhaustive\": false\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": 1\n}}\n",
                    js(check.property), js(if thorough { "thorough" } else { "quick" }), seed, js(&format!("{}: inputs [{}]: {}", harness, values.join(","), what)), jl(check.assumptions), t0.elapsed().as_secs_f64());
                let _ = std::fs::create_dir_all(format!("{}/evidence", root));
                let _ = std::fs::write(format!("{}/evidence/{}.json", root, check.property), ev);
                report(check.property, &root, &harness, "the code returns", &what, &values, &[]);
            }
        },
    }
    let threads = flag("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let cfg = Config { threads, seed, budget: Duration::from_secs(budget), crosscheck: thorough, stop_first: !has("--all"), verbose };
    let rep = explore(hs.clone(), cfg);
    let mut tot = Stats::default();
    let mut vac = vec![];
    let mut per = vec![];
    for (h, s) in hs.iter().zip(&rep.per) {
        if verbose || has("--stats") {
            println!("  {:44} paths {:7} infeas {:5} branches {:9} (max {:5}) queries {:8} final {:6} solver {:7.2}s replays {} mism {} unsup {} {:?}",
                h.name, s.paths, s.infeasible, s.branches, s.max_branches, s.queries, s.final_queries, s.solver_ns as f64 / 1e9, s.replays, s.trace_mismatch, s.unsupported, s.unsupported_why);
        }
        if !rep.timed_out && s.unsupported == 0 { for c in &h.covers { if !s.covers.contains(c) { vac.push(format!("{}: '{}' never reached", h.name, c)); } } }
        if s.paths == 0 && !rep.timed_out && s.unsupported == 0 { vac.push(format!("{}: no feasible path", h.name)); }
        per.push(format!("{{\"harness\": {}, \"number_model\": {}, \"bounds\": {}, \"paths\": {}, \"max_decisions_on_a_path\": {}, \"solver_queries\": {}, \"assertion_queries\": {}, \"solver_s\": {:.3}, \"reached\": {}}}",
            js(&h.name), js(&h.mode.name()), js(&h.bounds), s.paths, s.max_branches, s.queries, s.final_queries, s.solver_ns as f64 / 1e9, jl(&s.covers.iter().collect::<Vec<_>>())));
        merge(&mut tot, s);
    }
    let confirmed: Vec<&Violation> = rep.violations.iter().filter(|v| v.confirmed.is_some()).collect();
    let unconfirmed: Vec<&Violation> = rep.violations.iter().filter(|v| v.confirmed.is_none()).collect();
    let complete = !rep.timed_out && tot.unsupported == 0 && rep.violations.is_empty();
    let mut samples = tot.samples.clone();
    samples.truncate(12);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let modes: BTreeSet<String> = hs.iter().map(|h| h.mode.name()).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"samples\": {},\n  \"meaning\": \"states = feasible symbolic paths through the real code, transitions = branch decisions taken on them, traces validated = path models replayed natively with an identical observation trace\",\n  \"exhaustive\": {},\n  \"functions_encoded\": {},\n  \"number_models\": {},\n  \"assertions_evaluated\": {},\n  \"assertion_queries\": {},\n  \"solver_queries\": {},\n  \"solver_unknown\": {},\n  \"solver_s\": {:.3},\n  \"solver\": {},\n  \"infeasible_paths\": {},\n  \"replays_with_differing_trace\": {},\n  \"second_solver_agreements\": {},\n  \"second_solver_disagreements\": {},\n  \"paths_left_unexplored\": {},\n  \"harnesses\": [\n   {}\n  ]\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(check.property), js(if thorough { "thorough" } else { "quick" }), seed, tot.paths, tot.branches, tot.replays, jl(&samples), complete,
        jl(check.functions), jl(&modes.iter().collect::<Vec<_>>()), tot.checks, tot.final_queries, tot.queries, tot.unknown, tot.solver_ns as f64 / 1e9,
        js(&format!("z3 {}", crate::z3::version())), tot.infeasible, tot.trace_mismatch, tot.crosscheck, tot.crosscheck_bad, rep.left + tot.unsupported,
        per.join(",\n   "), jl(check.assumptions), t0.elapsed().as_secs_f64(), confirmed.len());
    std::fs::write(format!("{}/evidence/{}.json", root, check.property), ev).unwrap();
    println!("{} [{}]: {} harnesses, {} paths, {} decisions, {} queries ({} on assertions), {:.1}s solver, {:.1}s wall",
        check.property, tier, hs.len(), tot.paths, tot.branches, tot.queries, tot.final_queries, tot.solver_ns as f64 / 1e9, rep.wall);
    if let Some(v) = confirmed.first() {
        report(check.property, &root, &v.harness, &v.label, v.confirmed.as_ref().unwrap(), &v.values, &v.notes);
    }
    let mut bad = vec![];
    for v in unconfirmed { bad.push(format!("counterexample that does not reproduce natively: {} in {} [{}]", v.label, v.harness, v.values.join(","))); }
    let open = rep.left + tot.unsupported;
    if rep.timed_out { println!("INCOMPLETE: time budget used up, at least {} paths unexplored", rep.left); }
    if tot.unsupported > 0 { println!("INCOMPLETE: {} paths not decided: {:?}", tot.unsupported, tot.unsupported_why); }
    if open >= tot.paths.max(1) { bad.push("most paths were not decided".into()); }
    if tot.crosscheck_bad > 0 { bad.push(format!("{} queries on which a second solver disagrees", tot.crosscheck_bad)); }
    bad.extend(vac);
    if !bad.is_empty() {
        for b in bad { println!("INCONCLUSIVE: {}", b); }
        std::process::exit(2);
    }
    println!("{}: holds on everything explored", check.property);
    std::process::exit(0);
}

fn report(property: &str, root: &str, harness: &str, label: &str, native: &str, values: &[String], notes: &[String]) -> ! {
    let path = format!("{}/evidence/replay/{}.json", root, property);
    let body = format!("{{\n \"property\": {},\n \"harness\": {},\n \"assertion\": {},\n \"native_failure\": {},\n \"inputs\": {},\n \"notes\": {},\n \"how\": {}\n}}\n",
        js(property), js(harness), js(label), js(native), jl(values), jl(notes), js(&format!("./check {} --replay {}", property, path)));
    let _ = std::fs::write(&path, body);
    println!("violated: {} in {} with inputs [{}] (native run: {})", label, harness, values.join(","), native);
    for n in notes { println!("  {}", n); }
    println!("VIOLATION property={} replay={}", property, path);
    std::process::exit(1);
}

fn merge(a: &mut Stats, b: &Stats) {
    let mut c = b.clone();
    std::mem::swap(a, &mut c);
    a.absorb(&c);
}

fn replay(check: &Check, file: &str) -> ! {
    let txt = std::fs::read_to_string(file).expect("replay file");
    let field = |k: &str| -> Option<String> {
        let i = txt.find(&format!("\"{}\": ", k))? + k.len() + 4;
        let l = txt[i..].lines().next()?;
        Some(l.trim_end_matches(',').to_string())
    };
    let name = field("harness").expect("harness").trim_matches('"').to_string();
    let vals: Vec<String> = field("inputs").expect("inputs").trim_matches(['[', ']']).split(", ").filter(|s| !s.is_empty()).map(|s| s.trim_matches('"').to_string()).collect();
    let h = check.harnesses.iter().find(|h| h.name == name).expect("harness of the replay");
    let m = parse_model(h, &vals);
    let (out, notes) = run_native(h, &m);
    for n in notes { println!("  {}", n); }
    match out {
        NatOut::Fail(l) => { println!("reproduced: {}", l); std::process::exit(1) }
        NatOut::Pass(_) => { println!("not reproduced"); std::process::exit(0) }
        NatOut::Unusable(w) => { println!("unusable: {}", w); std::process::exit(2) }
    }
}
