use serde_json::{json, Value};
use std::path::PathBuf;
use std::time::Instant;
use xmc::client::*;
use xmc::engine::*;
use xmc::forge::*;
use xmc::js::*;
use xmc::model::*;
use xmc::suites::*;

/// The spaces explored for each property, under that property's monitor.
fn run(id: &str, r: &mut Run, t: Tier) {
    match id {
        "C01" => r.with(&Escrow, |r| shared(r, t)),
        "C02" => r.with(&Tokens, |r| {
            placed(r, t);
            shared(r, t)
        }),
        "C03" => {
            solo(r, t);
            r.with(&Share, |r| shared(r, t));
        }
        "C04" => r.with(&Cooldown, |r| shared(r, t)),
        "C05" => r.with(&Claims, |r| shared(r, t)),
        "C06" => r.with(&Config, |r| shared(r, t)),
        "C07" => {
            near_misses(r);
            substitutions(r, t, false)
        }
        "C08" => r.with(&InitMon, |r| initializations(r, t)),
        "C09" => malformed(r, t),
        "C10" => r.with(&Events, |r| shared(r, t)),
        "C11" => {
            let q = Quotes::new();
            r.with(&q, |r| quoted(r, t));
            if r.violation.is_none() {
                javascript_quotes(r, &q);
            }
        }
        "C12" => {
            every_way(r);
            r.with(&Wire, |r| shared(r, t));
        }
        "C18" => javascript_wire(r, t),
        "C14" => r.with(&Liveness { probe: true }, |r| shared(r, t)),
        "C15" => r.with(&Lamports, |r| shared(r, t)),
        "C16" => r.with(&Rate, |r| {
            placed(r, t);
            shared(r, t)
        }),
        "C17" => attacks(r, t),
        "ALL" => r.with(&Everything, |r| shared(r, t)),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

/// The pools and amounts that were reached, put to the JavaScript helpers.
fn javascript_quotes(r: &mut Run, q: &Quotes) {
    let t0 = Instant::now();
    let file = std::env::temp_dir().join(format!("xmc-quotes-{}", std::process::id()));
    let n = q.dump(&file).expect("quotes written");
    let out = std::process::Command::new("node")
        .args(["--no-warnings"])
        .arg(verif().join("js/quotes.mjs"))
        .arg(repo())
        .arg(&file)
        .output()
        .expect("node runs");
    let _ = std::fs::remove_file(&file);
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    let name = "quotes of the JavaScript client";
    if let Some(w) = text.strip_prefix("WRONG ") {
        r.violation = Some(Violation { what: w.into(), scope: name.into(), trace: vec![w.into()] });
    } else if text != format!("OK {n}") {
        eprintln!("the JavaScript helpers could not be asked: {text} {}", String::from_utf8_lossy(&out.stderr));
        std::process::exit(2);
    }
    let counts = Counts { states: n, transitions: n, traces: n, ..Default::default() };
    r.reports.push(ScopeReport {
        name: name.into(),
        bound: "every distinct (operation, amount, free ORCA, supply) executed above".into(),
        counts,
        complete: true,
        depth_done: 0,
        secs: t0.elapsed().as_secs_f64(),
        samples: vec![],
    });
}

/// Everything that was done, written and reported, put to the JavaScript client.
fn javascript_wire(r: &mut Run, t: Tier) {
    let c = Collect::default();
    c.boundaries();
    r.with(&c, |r| wired(r, t));
    if r.violation.is_some() {
        return;
    }
    let t0 = Instant::now();
    let file = verif().join(format!("target/wire-{}", std::process::id()));
    let n = c.dump(&file).expect("records written");
    drop(c);
    let out = std::process::Command::new("node")
        .args(["--no-warnings", "--max-old-space-size=2500"])
        .arg(verif().join("js/wire.mjs"))
        .arg(repo())
        .arg(&file)
        .output()
        .expect("node runs");
    let differ = file.with_extension("differ");
    let differs = std::fs::read_to_string(&differ).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(&differ);
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    let name = "everything put to the JavaScript client";
    let wrong = |w: &str| Some(Violation { what: w.into(), scope: name.into(), trace: vec![w.into()] });
    if let Some(w) = text.strip_prefix("WRONG ") {
        r.violation = wrong(w);
    } else if !text.starts_with("OK ") {
        eprintln!("the JavaScript client could not be asked: {text} {}", String::from_utf8_lossy(&out.stderr));
        std::process::exit(2);
    }
    r.reports.push(ScopeReport {
        name: name.into(),
        bound: format!("every distinct instruction, account, event and error code of the histories above, boundary arguments, and all claim addresses: {}", text.trim_start_matches("OK ")),
        counts: Counts { states: n, transitions: n, traces: n, ..Default::default() },
        complete: true,
        depth_done: 0,
        secs: t0.elapsed().as_secs_f64(),
        samples: vec![],
    });
    if r.violation.is_none() && !differs.is_empty() {
        let d = Differs::read(&differs);
        r.with(&d, |r| wired(r, t));
        if r.violation.is_none() {
            if let Err(w) = d.unmet() {
                r.violation = wrong(&w);
            }
        }
    }
}

/// Every way the Rust client has of building an instruction.
fn every_way(r: &mut Run) {
    let name = "every way of building";
    if r.only.as_ref().is_some_and(|o| o != name) {
        return;
    }
    let t0 = Instant::now();
    let (n, found) = builders();
    let listed: Vec<String> = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default().lines().map(|l| l.to_string()).collect();
    for f in found {
        let head = format!("known: property=C12 key={} ", f.key);
        if listed.iter().any(|l| l.starts_with(&head)) {
            println!("KNOWN-FINDING: property=C12 {}", f.what);
        } else if r.violation.is_none() {
            r.violation = Some(Violation { what: f.what.clone(), scope: name.into(), trace: vec![format!("{}: {}", f.key, f.what)] });
        }
    }
    r.reports.push(ScopeReport {
        name: name.into(),
        bound: "plain, builder, CPI, CPI builder, signed CPI, with and without a remaining account, for boundary arguments of every instruction".into(),
        counts: Counts { states: n, transitions: n, traces: n, ..Default::default() },
        complete: true,
        depth_done: 0,
        secs: t0.elapsed().as_secs_f64(),
        samples: vec![],
    });
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF").unwrap_or_else(|_| "/verif".into()))
}
fn repo() -> PathBuf {
    PathBuf::from("/repo")
}

struct Nothing;
impl Monitor for Nothing {
    fn step(&self, _: &Step) -> Verdict {
        Ok(())
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = verif();
    let (id, tier, only) = match a.get(1).map(|s| s.as_str()) {
        Some("check") => (a[2].clone(), a.get(3).cloned().unwrap_or("quick".into()), None),
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            (v["property"].as_str().unwrap().into(), v["tier"].as_str().unwrap().into(), Some(v["scope"].as_str().unwrap().to_string()))
        }
        Some("ledgers") => {
            let t = if a.get(3).is_some_and(|t| t == "thorough") { Tier::Thorough } else { Tier::Quick };
            xmc::ledgers::write(std::path::Path::new(&a[2]), t).expect("written");
            return;
        }
        Some("wire") => {
            let t = if a.get(3).is_some_and(|t| t == "thorough") { Tier::Thorough } else { Tier::Quick };
            let c = Collect::default();
            c.boundaries();
            let mut r = Run::new(&Nothing, t.pick(60, 240));
            r.with(&c, |r| wired(r, t));
            println!("{} records", c.dump(std::path::Path::new(&a[2])).expect("written"));
            return;
        }
        Some("serve") => {
            xmc::serve::run(a[2].parse().expect("a depth"));
            return;
        }
        _ => {
            eprintln!("usage: xmc check <property> quick|thorough | xmc replay <file> | xmc ledgers|wire <file> quick|thorough | xmc serve <depth>");
            std::process::exit(2)
        }
    };
    let t = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let t0 = Instant::now();
    let mut r = Run::new(&Nothing, t.pick(150, 760));
    r.only = only.clone();
    run(&id, &mut r, t);
    let mut c = Counts::default();
    for x in &r.reports {
        c.add(&x.counts);
        eprintln!(
            "{:>9} states {:>9} transitions {:>6.1}s{} {} [{}]",
            x.counts.states, x.counts.transitions, x.secs, if x.complete { "" } else { " (cut short)" }, x.name, x.bound
        );
    }
    let samples: Vec<Value> = r
        .reports
        .iter()
        .flat_map(|x| x.samples.iter().filter(|s| !s.is_empty()).map(move |s| json!({"scope": x.name, "trace": s})))
        .take(40)
        .collect();
    let conformance: Value = std::env::var("CONFORMANCE")
        .ok()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or(json!("run with C02"));
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": c.states,
            "transitions": c.transitions,
            // Maximal executions (leaves of the search tree and members of the sweeps): every step of each of them is
            // an execution of the real program whose outcome was judged against the reference model.
            "traces_validated_against_impl": c.traces,
            "transactions_replayed_in_litesvm": conformance,
            "accepted": c.accepted,
            "refused": c.refused,
            "extra_executions_from_states": c.probes,
            "operations": c.kinds.iter().map(|(k, v)| (k.clone(), json!({"accepted": v.0, "refused": v.1}))).collect::<serde_json::Map<_, _>>(),
            "refusal_reasons": c.errors,
            "exhaustive": r.reports.iter().all(|x| x.complete),
            "scopes": r.reports.iter().map(|x| json!({"name": x.name, "bound": x.bound, "states": x.counts.states, "transitions": x.counts.transitions, "complete": x.complete, "depth": x.depth_done, "seconds": x.secs})).collect::<Vec<_>>(),
            "samples": samples,
        },
        "assumptions": [
            "the program is compiled natively from /repo and run through its on-chain entrypoint inside a re-implementation of the Solana runtime's account, CPI and rent rules (validated against LiteSVM by conf/)",
            "SPL Token is the real processor; the System and Associated Token programs are re-implemented",
            "values outside the stated alphabets and histories longer than the stated depths are not covered",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": r.violation.iter().count(),
    });
    if only.is_none() {
        std::fs::create_dir_all(verif.join("evidence")).unwrap();
        std::fs::write(verif.join(format!("evidence/{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    if c.transitions == 0 && r.violation.is_none() {
        eprintln!("nothing was explored");
        std::process::exit(3);
    }
    match r.violation {
        None => println!("{id}: held on {} states and {} transitions in {:.1}s", c.states, c.transitions, t0.elapsed().as_secs_f64()),
        Some(v) => {
            let out = verif.join("out");
            std::fs::create_dir_all(&out).unwrap();
            let path = out.join(format!("{id}.replay.json"));
            let j = json!({"property": id, "tier": tier, "scope": v.scope, "what": v.what, "trace": v.trace});
            std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            println!("{id}: {}\n  in: {}", v.what, v.scope);
            for (i, s) in v.trace.iter().enumerate() {
                println!("  {:>3}. {s}", i + 1);
            }
            println!("VIOLATION property={id} replay={}", path.display());
            std::process::exit(1);
        }
    }
}
