mod after;
mod client;
mod client2;
mod flow;
mod gen;
mod guard;
mod hold;
mod inflight;
mod lasting;
mod lit;
mod many;
mod mem;
mod one_of;
mod print;
mod proto;
mod race;
mod refparse;
mod runner;
mod session;
mod sim;
mod sub;
mod threads;
mod types;
mod wake;

use runner::{AnyPart, Cfg, Tier};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::time::Instant;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

pub struct Property {
    pub id: &'static str,
    pub parts: Vec<Box<dyn AnyPart>>,
    /// Fixed probes of listed findings: (signature as in known-findings.txt, what fails, probe
    /// returning true while the finding is present).
    pub known: Vec<(&'static str, fn() -> bool)>,
    pub assumptions: &'static [&'static str],
}

fn property(id: &str) -> Option<Property> {
    proto::property(id).or_else(|| sub::property(id)).or_else(|| client::property(id)).or_else(|| client2::property(id)).or_else(|| hold::property(id)).or_else(|| after::property(id)).or_else(|| lasting::property(id)).or_else(|| print::property(id)).or_else(|| inflight::property(id)).or_else(|| wake::property(id))
}

fn root() -> PathBuf {
    std::env::var_os("VP_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Findings listed in the committed file: "known: property=<id> <signature>".
fn listed(root: &Path, id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let head = format!("known: property={id} ");
    text.lines().filter_map(|l| l.strip_prefix(&head)).map(|l| l.trim().to_string()).collect()
}

/// The check in a child process, and what its death means.
fn check(id: &str) -> i32 {
    let root = root();
    let evidence = root.join("evidence").join(format!("{id}.json"));
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let _ = std::fs::remove_file(&evidence);
    let slots = root.join("out").join(format!("slots-{id}-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&slots) {
        println!("ERROR: {}: {e}", slots.display());
        return 2;
    }
    let t0 = Instant::now();
    let code = match guard::run(id, &slots) {
        Ok(c) => c,
        Err(what) => match guard::look(id, &slots, &root.join("out").join("replays"), &what) {
            Some((path, msg)) => {
                let ev = json!({
                    "property": id,
                    "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()),
                    "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1),
                    "level": "exploration",
                    "coverage": { "evaluations": 1, "distinct_nontrivial": 1, "rule": "The run ended at a case that ends or hangs the process; only that case is reported.", "samples": [msg.clone()] },
                    "assumptions": [],
                    "wall_s": t0.elapsed().as_secs_f64(),
                    "violations": 1,
                });
                let _ = std::fs::write(&evidence, ev.to_string());
                println!("  {msg}");
                println!("VIOLATION property={id} replay={}", path.display());
                1
            }
            None => {
                println!("ERROR: {id}: {what}, and no case repeats that alone; inconclusive");
                3
            }
        },
    };
    let _ = std::fs::remove_dir_all(&slots);
    code
}

fn check_inner(id: &str) -> i32 {
    let Some(p) = property(id) else {
        println!("ERROR: no property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let root = root();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|n| n as u64).unwrap_or(1);
    let workers = std::env::var("VP_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let slots = std::env::var_os("VP_SLOTS").map(PathBuf::from);
    let cfg = Cfg { property: p.id, tier, seed, root: root.clone(), workers, scale, slots };
    let evidence = root.join("evidence").join(format!("{id}.json"));

    let mut violations: Vec<(PathBuf, String)> = vec![];
    // Regression inputs first.
    let mut replayed = 0u64;
    let dir = root.join("corpus").join(id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.retain(|f| f.extension().map_or(false, |e| e == "json"));
    files.sort();
    for f in files {
        if let (Some(d), Ok(text)) = (&cfg.slots, std::fs::read_to_string(&f)) {
            let _ = std::fs::write(d.join("regression"), format!("{:016x}{text}", text.len()));
        }
        match runner::replay_file(&p.parts, &f, None) {
            Ok(None) => replayed += 1,
            Ok(Some(msg)) => {
                violations.push((f.clone(), msg));
                break;
            }
            Err(e) => {
                println!("ERROR: {e}");
                return 2;
            }
        }
    }
    if let Some(d) = &cfg.slots {
        let _ = std::fs::remove_file(d.join("regression"));
    }
    let findings = listed(&root, id);
    for f in &findings {
        match p.known.iter().find(|(sig, _)| *sig == f.as_str()) {
            Some((_, probe)) => match runner::no_panic(probe) {
                Ok(true) => println!("KNOWN-FINDING: property={id} {f}"),
                _ => println!("note: listed finding no longer present: {f}"),
            },
            None => {
                println!("ERROR: listed finding without a probe: {f}");
                return 2;
            }
        }
    }
    let mut evaluations = replayed;
    let mut distinct = 0;
    let mut classes = serde_json::Map::new();
    let mut rules = vec![];
    let mut samples = vec![];
    for part in &p.parts {
        if !violations.is_empty() {
            break;
        }
        let only = std::env::var("VP_PART").ok();
        if only.is_some() && only.as_deref() != Some(part.name()) {
            continue;
        }
        let pt = Instant::now();
        let r = part.run(&cfg);
        evaluations += r.evaluations;
        distinct += r.distinct_nontrivial;
        rules.push(format!("[{}] {}", part.name(), part.rule()));
        samples.extend(r.samples.into_iter().map(|s| json!({"part": part.name(), "case": s})));
        println!("{id}/{}: {} cases, {} distinct non-trivial, {:.1} s, slowest {} ms", part.name(), r.evaluations, r.distinct_nontrivial, pt.elapsed().as_secs_f64(), r.slowest_ms);
        classes.insert(
            part.name().to_string(),
            json!({"cases": r.evaluations, "distinct_nontrivial": r.distinct_nontrivial, "slowest_case_ms": r.slowest_ms, "classes": r.labels.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>()}),
        );
        if let Some(f) = r.failure {
            violations.push((f.path, format!("[{}] {}", f.part, f.message)));
        }
    }
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" "),
            "samples": samples,
            "parts": classes,
            "regression_inputs_replayed": replayed,
            "known_findings_listed": findings.len(),
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    if let Err(e) = std::fs::write(&evidence, serde_json::to_string_pretty(&ev).unwrap()) {
        println!("ERROR: cannot write evidence: {e}");
        return 2;
    }
    if violations.is_empty() {
        println!("{id}: held on {evaluations} cases ({distinct} distinct non-trivial), {:.1} s", t0.elapsed().as_secs_f64());
        0
    } else {
        for (path, msg) in &violations {
            println!("  {}", msg.chars().take(2000).collect::<String>().replace('\n', "\\n"));
            println!("VIOLATION property={id} replay={}", path.display());
        }
        1
    }
}

fn replay(id: &str, file: &str, repeat: Option<u32>) -> i32 {
    let Some(p) = property(id) else {
        println!("ERROR: no property {id}");
        return 2;
    };
    match runner::replay_file(&p.parts, Path::new(file), repeat) {
        Ok(None) => {
            println!("held");
            0
        }
        Ok(Some(m)) => {
            println!("  {m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Err(e) => {
            println!("ERROR: {e}");
            2
        }
    }
}

fn main() {
    runner::install_panic_hook();
    sim::install_logger();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id] => check(id),
        ["check-inner", id] => check_inner(id),
        ["replay", id, file] => guard::replay(id, file, ""),
        ["replay", id, file, n] => guard::replay(id, file, n),
        ["replay-inner", id, file] => replay(id, file, None),
        ["replay-inner", id, file, n] => replay(id, file, n.parse().ok()),
        ["sample", id, part, seed, n] => {
            let p = property(id).expect("property");
            for q in p.parts.iter().filter(|q| q.name() == *part) {
                for l in q.sample(seed.parse().unwrap(), n.parse().unwrap()) {
                    println!("{l}");
                }
            }
            0
        }
        _ => {
            eprintln!("usage: vp check <ID> | replay <ID> <file> [repeat] | sample <ID> <part> <seed> <n>");
            2
        }
    };
    std::process::exit(code);
}
