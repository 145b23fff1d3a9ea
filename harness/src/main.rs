mod accts;
mod base;
mod gens;
mod hier;
mod infra;
mod mined;
mod money;
mod stmts;

use infra::*;
use std::fmt::Write as _;

/** The properties, and by how much the numbers of cases of their laws are multiplied: a property gets about
half a minute in the quick tier. */
fn props() -> Vec<(&'static str, fn() -> Prop, f64)> {
    vec![
        ("C01", base::c01, 4.0),
        ("C02", base::c02, 6.0),
        ("C03", base::c03, 10.0),
        ("C04", base::c04, 5.0),
        ("C05", base::c05, 3.0),
        ("C06", base::c06, 10.0),
        ("C07", base::c07, 15.0),
        ("C08", base::c08, 3.0),
        ("C09", base::c09, 2.0),
        ("C10", base::c10, 5.0),
        ("C11", base::c11, 8.0),
        ("C12", base::c12, 8.0),
        ("C13", money::c13, 10.0),
        ("C14", money::c14, 3.0),
        ("C15", money::c15, 8.0),
        ("C16", money::c16, 20.0),
        ("C17", money::c17, 15.0),
        ("C18", money::c18, 20.0),
        ("C19", money::c19, 8.0),
        ("C20", money::c20, 8.0),
        ("C21", money::c21, 5.0),
        ("C22", money::c22, 8.0),
        ("C23", stmts::c23, 1.0),
        ("C24", stmts::c24, 3.0),
        ("C25", stmts::c25, 4.0),
        ("C26", stmts::c26, 2.0),
        ("C27", stmts::c27, 8.0),
        ("C28", stmts::c28, 4.0),
        ("C29", accts::c29, 4.0),
        ("C30", accts::c30, 2.0),
        ("C31", accts::c31, 15.0),
        ("C32", accts::c32, 4.0),
        ("C33", accts::c33, 2.0),
        ("C34", accts::c34, 2.0),
    ]
}

const ROOT: &str = "/verif";

fn known_for(id: &str, root: &str) -> Vec<String> {
    // lines "known: property=<id> key=<key> <what fails>"
    std::fs::read_to_string(format!("{root}/known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter(|l| l.contains(&format!("property={id} ")))
        .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("key=")))
        .map(|s| s.to_string())
        .collect()
}

fn known_text(id: &str, key: &str, root: &str) -> String {
    std::fs::read_to_string(format!("{root}/known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .find(|l| l.contains(&format!("property={id} ")) && l.contains(&format!("key={key} ")))
        .map(|l| l.split(&format!("key={key} ")).nth(1).unwrap_or("").to_string())
        .unwrap_or_default()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some((prop, factor)) = props().into_iter().find(|p| p.0 == id).map(|p| (p.1(), p.2)) else {
        eprintln!("usage: fincheck C<nn> [--replay FILE]");
        std::process::exit(2);
    };
    let root = std::env::var("FINCHECK_ROOT").unwrap_or_else(|_| ROOT.into());
    if std::env::var_os("FINCHECK_CHILD").is_none() {
        supervise(&args, prop.id, &root);
    }
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let limit = if thorough { 6 * 3600 } else { 840 };
    let env = Env {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough,
        scale: factor * std::env::var("FINCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        known: known_for(&id, &root),
        deadline: std::time::Instant::now() + std::time::Duration::from_secs(limit * 2 / 3),
    };
    install_panic_hook();
    limit_memory(if thorough { 28 << 30 } else { 6 << 30 });
    if let Ok(dir) = std::env::var("FINCHECK_TRACE") {
        trace_to(dir);
    }
    let (pid, seed, r2) = (prop.id, env.seed, root.clone());
    let is_replay = args.get(2).is_some_and(|a| a == "--replay");
    start_watchdog(60, move |law, case| {
        let msg = "a call into the library does not return: still running after 60 s, where others take milliseconds";
        let path = if is_replay { "(this one)".into() } else { write_replay(pid, law, seed, msg, case, &r2) };
        println!("{msg}");
        println!("VIOLATION property={pid} replay={path}");
        std::process::exit(1);
    });
    if is_replay {
        replay(&prop, &env, &args[3]);
    }
    // No answer in time is an error of the run, never a verdict.
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("inconclusive: still running after {limit} s");
        std::process::exit(3);
    });
    run(&prop, &env, &root);
}

/** Bound the address space, so that a runaway allocation ends this process and nothing else. */
fn limit_memory(bytes: u64) {
    unsafe extern "C" {
        fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    unsafe { setrlimit(RLIMIT_AS, &[bytes, bytes]) };
}

/** Run the check in a child. If the child dies (stack overflow, abort, out of memory), find the case that
kills it: run again with every case written down before it is judged, then replay the last ones alone. */
fn supervise(args: &[String], id: &str, root: &str) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let me = std::env::current_exe().expect("own path");
    let child = |args: &[String], trace: Option<&str>| {
        let mut c = std::process::Command::new(&me);
        c.args(args).env("FINCHECK_CHILD", "1");
        if let Some(t) = trace {
            c.env("FINCHECK_TRACE", t).stdout(std::process::Stdio::null());
        }
        c.status().expect("child")
    };
    let st = child(&args[1..], None);
    let Some(sig) = st.signal() else { std::process::exit(st.code().unwrap_or(2)) };
    if args.len() > 2 {
        println!("the process dies of signal {sig} on this case");
        println!("VIOLATION property={id} replay={}", args.get(3).map_or("", |s| s));
        std::process::exit(1);
    }
    eprintln!("the run died of signal {sig}; looking for the case");
    let dir = format!("{root}/replays/trace-{}", std::process::id());
    std::fs::create_dir_all(&dir).expect("trace directory");
    let again = child(&args[1..], Some(&dir));
    let mut found = None;
    if again.signal().is_some() {
        for e in std::fs::read_dir(&dir).expect("trace directory").flatten() {
            let text = std::fs::read_to_string(e.path()).unwrap_or_default();
            let Some((law, case)) = text.split_once("\ncase:\n") else { continue };
            let law = law.trim_start_matches("law: ");
            let msg = format!("the process dies of signal {sig} on this case");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let path = write_replay(id, law, seed, &msg, case.trim(), root);
            let one = [id.to_string(), "--replay".into(), path.clone()];
            let mut c = std::process::Command::new(&me);
            c.args(&one).env("FINCHECK_CHILD", "1").stdout(std::process::Stdio::null());
            if c.status().expect("child").signal().is_some() {
                found = Some((path, msg));
                break;
            }
            let _ = std::fs::remove_file(path);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if let Some((path, msg)) = found {
        println!("{msg}");
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    }
    eprintln!("error: the run died of signal {sig}, no single case does");
    std::process::exit(2)
}

fn write_replay(id: &str, law: &str, seed: u64, msg: &str, case: &str, root: &str) -> String {
    let slug: String = law.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let path = format!("{root}/replays/{id}-{slug}.txt");
    let text = format!(
        "property: {id}\nlaw: {law}\nseed: {seed}\nmessage: {}\nreplay with: {root}/check.sh {id} --replay {path}\ncase:\n{case}\n",
        msg.replace('\n', " "),
    );
    std::fs::write(&path, text).expect("write replay");
    path
}

fn replay(prop: &Prop, env: &Env, file: &str) -> ! {
    let text = std::fs::read_to_string(file).expect("replay file");
    let law_name = text.lines().find_map(|l| l.strip_prefix("law: ")).expect("law line");
    let case = text.split_once("\ncase:\n").expect("case").1.trim();
    let law = prop.laws.iter().find(|l| l.name == law_name).expect("law of that name");
    match (law.replay)(env, case) {
        Ok(Outcome::Fail(m)) => {
            println!("{m}");
            println!("VIOLATION property={} replay={file}", prop.id);
            std::process::exit(1)
        }
        Ok(Outcome::Pass) => {
            println!("the case passes");
            std::process::exit(0)
        }
        Ok(Outcome::Known(k)) => {
            println!("KNOWN-FINDING: property={} {k}", prop.id);
            std::process::exit(0)
        }
        Ok(Outcome::HarnessError(m)) | Err(m) => {
            eprintln!("error: {m}");
            std::process::exit(2)
        }
    }
}

fn run(prop: &Prop, env: &Env, root: &str) {
    let t0 = std::time::Instant::now();
    let mut reports = vec![];
    for law in &prop.laws {
        let t = std::time::Instant::now();
        let r = (law.run)(env);
        println!(
            "{} {:<44} {:>10} cases {:>10} non-trivial {:>6.1} s{}",
            prop.id,
            r.name,
            r.evaluations,
            r.nontrivial,
            t.elapsed().as_secs_f64(),
            if r.failure.is_some() { "  FAILED" } else { "" }
        );
        for (k, v) in &r.labels {
            println!("      {k}: {v} ({:.1}%)", 100.0 * *v as f64 / r.evaluations.max(1) as f64);
        }
        reports.push(r);
    }
    let mut violations = vec![];
    for r in &reports {
        if let Some((msg, case)) = &r.failure {
            let path = write_replay(prop.id, r.name, env.seed, msg, case, root);
            violations.push((path, msg.clone()));
        }
    }
    write_evidence(prop, env, &reports, violations.len(), t0.elapsed().as_secs_f64(), root);
    for r in &reports {
        for k in r.known_hits.keys() {
            println!("KNOWN-FINDING: property={} {}", prop.id, known_text(prop.id, k, root));
        }
    }
    if !violations.is_empty() {
        for (path, msg) in &violations {
            println!("{msg}");
            println!("VIOLATION property={} replay={path}", prop.id);
        }
        std::process::exit(1);
    }
    if let Some(e) = reports.iter().find_map(|r| r.harness_error.clone()) {
        eprintln!("error: {e}");
        std::process::exit(2);
    }
    println!("{} held on everything explored ({:.1} s)", prop.id, t0.elapsed().as_secs_f64());
}

fn write_evidence(prop: &Prop, env: &Env, reports: &[LawReport], violations: usize, wall: f64, root: &str) {
    let mut samples = vec![];
    let mut laws = vec![];
    for r in reports {
        for s in &r.samples {
            samples.push(serde_json::json!({"law": r.name, "case": s}));
        }
        laws.push(serde_json::json!({
            "law": r.name, "evaluations": r.evaluations, "nontrivial": r.nontrivial,
            "distinct_nontrivial": r.distinct_nontrivial, "enumerated_completely": r.exhaustive,
            "classes": r.labels,
            "known_findings_hit": r.known_hits.iter().map(|(k, (n, s))| serde_json::json!({"key": k, "cases": n, "first": s})).collect::<Vec<_>>(),
        }));
    }
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": reports.iter().map(|r| r.evaluations).sum::<u64>(),
            "distinct_nontrivial": reports.iter().map(|r| r.distinct_nontrivial).sum::<u64>(),
            "rule": prop.rule,
            "samples": samples,
            "laws": laws,
        },
        "assumptions": ["floating-point results are compared within the tolerance stated in DESIGN.md", "the library is built with debug assertions and overflow checks"],
        "wall_s": wall,
        "violations": violations,
    });
    let mut s = String::new();
    let _ = write!(s, "{}", serde_json::to_string_pretty(&ev).expect("json"));
    std::fs::create_dir_all(format!("{root}/evidence")).expect("evidence dir");
    std::fs::write(format!("{root}/evidence/{}.json", prop.id), s).expect("evidence");
}
