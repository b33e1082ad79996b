mod checks;
mod clock;
mod common;
mod dict;
mod mass;
mod model;
mod script;
mod sut;
mod wire;

use common::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "dict" => dict::dump(),
        "list" => {
            for id in checks::IDS {
                println!("{}", id);
            }
        }
        "check" => std::process::exit(parent(&args[2])),
        "times" => std::process::exit(times(&args[2], args[3].parse().unwrap(), &args[4])),
        "child" => std::process::exit(child(&args[2], &args[3])),
        "case" => std::process::exit(one_case(&args[2], &args[3], args[4].parse().unwrap(), false)),
        "replay" => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("json");
            std::env::set_var("MC_TIER", j["tier"].as_str().unwrap());
            if j["section"] == "preempt" {
                let said = format!("{}/mc-preempt-{}", std::env::temp_dir().display(), std::process::id());
                let n = |i: usize| j["pair"][i].as_u64().unwrap().to_string();
                let null = std::process::Stdio::null;
                let st = std::process::Command::new(preempt_exe().expect("the explorer of pre-emptions")).args(["pair", &n(0), &n(1), &n(2), &said]).stdout(null()).stderr(null()).status().expect("start");
                println!("{}", std::fs::read_to_string(&said).unwrap_or_default());
                let _ = std::fs::remove_file(&said);
                std::process::exit(st.code().unwrap_or(1));
            }
            let exe = std::env::current_exe().unwrap();
            if j["build"] == "nodebug" && cfg!(debug_assertions) {
                let other = exe.parent().unwrap().parent().unwrap().join("nodebug/mc");
                let st = std::process::Command::new(other).args(["replay", &args[2]]).status().expect("the build without debug assertions");
                std::process::exit(st.code().unwrap_or(1));
            }
            std::process::exit(one_case(j["property"].as_str().unwrap(), j["section"].as_str().unwrap(), j["index"].as_u64().unwrap(), true));
        }
        _ => {
            eprintln!("usage: mc list | check ID | replay FILE   (MC_TIER=quick|thorough)");
            std::process::exit(2);
        }
    }
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines: "finding: property=C01 key=<substring of the violation text> :: what fails"
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={} key=", id)))
        .filter_map(|l| l.split_once(" :: ").map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

fn setup() {
    install_panic_hook();
    capture_stdio();
}

fn child(id: &str, progress: &str) -> i32 {
    setup();
    let t0 = std::time::Instant::now();
    let tier = current_tier();
    SETTING_UP.store(true, std::sync::atomic::Ordering::SeqCst);
    let check: &'static Check = Box::leak(Box::new(checks::build(id, tier)));
    SETTING_UP.store(false, std::sync::atomic::Ordering::SeqCst);
    let (verdict, st, per_section) = run_sections(check, Some(progress));
    checks::cleanup();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut nviol = 0;
    let code = match &verdict {
        Verdict::Held => 0,
        Verdict::EngineError(e) => {
            out(&format!("ENGINE ERROR property={}: {}", id, e));
            3
        }
        Verdict::Violated(vs) => {
            let known = known_findings(id);
            let mut code = 0;
            for v in vs {
                if let Some((_, what)) = known.iter().find(|(k, _)| v.what.contains(k.as_str())) {
                    out(&format!("KNOWN-FINDING: property={} {}", id, what));
                } else {
                    nviol += 1;
                    let p = write_replay(id, v);
                    out(&format!("VIOLATION property={} replay={}", id, p));
                    let shown: String = v.what.chars().take(6000).collect();
                    out(&format!("section {} case {}:\n{}", v.section, v.index, shown));
                    code = 1;
                }
            }
            code
        }
    };
    let sections: Vec<serde_json::Value> = check
        .sections
        .iter()
        .map(|s| {
            let done = per_section.iter().find(|(n, _)| *n == s.name).map(|x| x.1).unwrap_or(0);
            serde_json::json!({"name": s.name, "cases": s.n, "cases_completed": done})
        })
        .collect();
    if let Some(to) = std::env::var_os("MC_LITE") {
        // part of the whole run: no evidence file of its own
        let n: u64 = per_section.iter().map(|x| x.1).sum();
        let j = serde_json::json!({"sections": per_section.len(), "cases": n, "cases_per_section_at_most": LITE_CASES, "states": st.states.len(), "traces": st.traces, "comparisons": st.evaluations, "wall_s": t0.elapsed().as_secs_f64()});
        let _ = std::fs::write(to, j.to_string());
        if code == 0 {
            return 0;
        }
    }
    let all_done = matches!(verdict, Verdict::Held);
    let mut cov = serde_json::json!({
        "sections": sections,
        "samples": st.samples,
        "exhaustive": all_done,
        "rule": check.rule,
    });
    let o = cov.as_object_mut().unwrap();
    if let Some(j) = std::env::var_os("MC_LITE_COUNTS").and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok()) {
        let j: serde_json::Value = j;
        o.insert("without_debug_assertions".into(), j);
    }
    if let Some(j) = std::env::var_os("MC_PREEMPT").and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok()) {
        let j: serde_json::Value = j;
        o.insert("one_preemption_anywhere".into(), j);
    }
    match check.level {
        "model_checking" => {
            o.insert("states".into(), (st.states.len() as u64).into());
            o.insert("transitions".into(), st.transitions.into());
            o.insert("traces_validated_against_impl".into(), st.traces.into());
            o.insert("comparisons".into(), st.evaluations.into());
            o.insert("distinct_outcomes".into(), (st.outcomes.len() as u64).into());
        }
        _ => {
            o.insert("evaluations".into(), st.evaluations.into());
            o.insert("distinct_nontrivial".into(), (st.outcomes.len() as u64).into());
        }
    }
    let ev = serde_json::json!({
        "property": id, "tier": tier_name(tier), "seed": seed, "level": check.level,
        "coverage": cov, "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": nviol,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, id), serde_json::to_string_pretty(&ev).unwrap()) {
        out(&format!("cannot write evidence: {}", e));
        return 3;
    }
    if code == 0 {
        out(&format!(
            "HELD property={} tier={} states={} transitions={} traces={} evaluations={} outcomes={} wall={:.1}s",
            id, tier_name(tier), st.states.len(), st.transitions, st.traces, st.evaluations, st.outcomes.len(), t0.elapsed().as_secs_f64()
        ));
    }
    code
}

/// One exploration under other clocks, in this process alone; what came of it goes into a file.
fn times(id: &str, i: u64, to: &str) -> i32 {
    setup();
    let id = checks::IDS.iter().find(|x| **x == id).expect("property");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| checks::times::run(id, i)));
    let said = match r {
        Ok(Ok(())) => "held".to_string(),
        Ok(Err(e)) => e,
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_engine_panic(&loc) {
                format!("ENGINE: harness panic at {}: {}", loc, msg)
            } else {
                format!("the library panicked where it must not: {} [{}]", msg, loc)
            }
        }
    };
    let _ = std::fs::write(to, &said);
    (said != "held") as i32
}

/// Re-run one case alone. 0 held, 1 violated.
fn one_case(id: &str, sec: &str, idx: u64, verbose: bool) -> i32 {
    setup();
    let check = checks::build(id, current_tier());
    let s = match check.sections.iter().find(|s| s.name == sec) {
        Some(s) => s,
        None => {
            out("no such section");
            return 2;
        }
    };
    let only = Section { name: s.name.clone(), n: 1, f: Box::new(|_, _| Ok(())) };
    let _ = only;
    let mut w = W::new(0);
    w.verbose = verbose;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f)(idx, &mut w)));
    checks::cleanup();
    match r {
        Ok(Ok(())) => {
            out("held");
            0
        }
        Ok(Err(e)) => {
            out(&format!("VIOLATION property={} replay=(this)", id));
            out(&e);
            1
        }
        Err(_) => {
            out("VIOLATION (panic)");
            out(&format!("{:?}", LAST_PANIC.with(|p| p.borrow_mut().take())));
            1
        }
    }
}

/// Runs the exploration in a child process, so that a crash of the code under test (stack overflow, abort) can be
/// pinned to a case, confirmed by re-running that case alone, and reported as a violation.
fn parent(id: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let prog = format!("{}/mc-progress-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    let _ = std::fs::remove_file(&prog);
    let scratch = format!("{}.d", prog);
    std::env::set_var("MC_SCRATCH", &scratch);
    let r = parent_inner(id, &exe, &prog);
    let _ = std::fs::remove_dir_all(&scratch);
    r
}

fn parent_inner(id: &str, exe: &std::path::Path, prog: &str) -> i32 {
    // the same library as a release has it, on the first cases of every section
    let released = exe.parent().and_then(|d| d.parent()).map(|d| d.join("nodebug/mc")).filter(|p| p.exists());
    let counts = format!("{}.lite", prog);
    if let Some(r) = released {
        std::env::set_var("MC_LITE", &counts);
        let code = run_child(id, &r, prog);
        std::env::remove_var("MC_LITE");
        if code != 0 {
            let _ = std::fs::remove_file(&counts);
            return code;
        }
        std::env::set_var("MC_LITE_COUNTS", &counts);
    }
    // one pre-emption at any point of the library's code, by a program of its own
    let pre = format!("{}.preempt", prog);
    if id == "C19" {
        if let Some(code) = preempt(&pre) {
            let _ = std::fs::remove_file(&counts);
            let _ = std::fs::remove_file(&pre);
            return code;
        }
        std::env::set_var("MC_PREEMPT", &pre);
    }
    let code = run_child(id, exe, prog);
    let _ = std::fs::remove_file(&counts);
    let _ = std::fs::remove_file(&pre);
    code
}

fn preempt_exe() -> Option<std::path::PathBuf> {
    let exe = std::env::current_exe().ok()?;
    Some(exe.parent()?.parent()?.join("preempt/debug/preempt")).filter(|p| p.exists())
}

/// Some(exit code) when a schedule breaks the property
fn preempt(to: &str) -> Option<i32> {
    let exe = preempt_exe()?;
    let limit = if current_tier() == Tier::Quick { "150" } else { "3000" };
    let t0 = std::time::Instant::now();
    let null = std::process::Stdio::null;
    let _ = std::process::Command::new(exe).arg(to).env("MC_PREEMPT_S", limit).stdout(null()).stderr(null()).status();
    let j: serde_json::Value = std::fs::read(to).ok().and_then(|b| serde_json::from_slice(&b).ok())?;
    let what = j["found"]["what"].as_str()?;
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/C19-preempt.json", dir);
    let replay = serde_json::json!({"property": "C19", "section": "preempt", "pair": j["found"]["pair"], "index": 0, "tier": tier_name(current_tier()), "what": what});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = serde_json::json!({
        "property": "C19", "tier": tier_name(current_tier()), "seed": seed, "level": "model_checking",
        "coverage": {"states": j["held"], "transitions": j["schedules"], "traces_validated_against_impl": j["schedules"], "one_preemption_anywhere": j, "exhaustive": false},
        "assumptions": [], "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    let _ = std::fs::write(format!("{}/evidence/C19.json", verif_dir()), serde_json::to_string_pretty(&ev).unwrap());
    println!("VIOLATION property=C19 replay={}", path);
    println!("one pre-emption anywhere: {}", what);
    Some(1)
}

fn run_child(id: &str, exe: &std::path::Path, prog: &str) -> i32 {
    let st = std::process::Command::new(exe).args(["child", id, prog]).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            println!("cannot start: {}", e);
            return 3;
        }
    };
    let cases = read_progress(prog);
    let _ = std::fs::remove_file(prog);
    if let Some(c) = st.code() {
        return c;
    }
    // killed by a signal
    let check = checks::build(id, current_tier());
    for (si, ix) in cases {
        let sec = match check.sections.get(si as usize - 1) {
            Some(s) => s,
            None => continue,
        };
        let r = std::process::Command::new(exe).args(["case", id, &sec.name, &ix.to_string()]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        if let Ok(s) = r {
            if s.code().is_none() || s.code() == Some(1) {
                let v = Violation { section: sec.name.clone(), index: ix, what: format!("the code under test crashed the process ({}) on this case, also when run alone", st) };
                let p = write_replay(id, &v);
                println!("VIOLATION property={} replay={}", id, p);
                println!("{}", v.what);
                return 1;
            }
        }
    }
    println!("ENGINE ERROR property={}: killed ({}), not reproducible on a single case", id, st);
    3
}
