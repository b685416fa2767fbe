//! Supervisor: spawns worker processes, merges their reports, writes evidence,
//! prints the verdict. Exit 0 held / 1 violated / 2 no answer.
use crate::checks;
use crate::ctx::{self, Ctx, Data, Outcome, Report, Violation};
use crate::rng::hash_bytes;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::process::{Command, Stdio};
use std::time::Instant;

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}
fn seed() -> u64 {
    env("VERIF_SEED", "1").parse().unwrap_or(1)
}
fn thorough() -> bool {
    env("VERIF_TIER", "quick") == "thorough"
}
fn verif() -> String {
    env("VERIF_DIR", "/verif")
}

#[derive(Deserialize)]
struct Known {
    property: String,
    kind: String,
    /// exact failing input
    input: Option<String>,
    /// exact failing case of a fixed family
    workload: Option<String>,
    what: String,
    #[serde(default)]
    status: String,
}

fn known(id: &str) -> Vec<Known> {
    let p = format!("{}/known_findings.jsonl", verif());
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str::<Known>(l).expect("known_findings.jsonl"))
        .filter(|k| k.property == id && k.status == "open")
        .collect()
}

pub fn worker(id: &str, w: usize, n: usize, dir: &str) -> i32 {
    let id = id.to_string();
    let dir = dir.to_string();
    ctx::install(&format!("{dir}/crash.{w}"));
    ctx::watchdog();
    // roomy stack: deep recursion is judged by its own property with its own
    // fixed stack, not here
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let p = checks::all().into_iter().find(|p| p.id == id).expect("unknown property");
            let mut c = Ctx::new(seed(), thorough(), w, n, verif());
            (p.run)(&mut c);
            let out = serde_json::to_vec(&c.rep).unwrap();
            std::fs::write(format!("{dir}/report.{w}"), out).unwrap();
            let mut b = Vec::with_capacity(c.distinct.len() * 8);
            for x in &c.distinct {
                b.extend_from_slice(&x.to_le_bytes());
            }
            std::fs::write(format!("{dir}/distinct.{w}"), b).unwrap();
        })
        .unwrap();
    match h.join() {
        Ok(()) => 0,
        Err(_) => 3,
    }
}

pub fn scratch(tag: &str) -> String {
    let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let d = format!("{base}/kdlverif-{tag}-{}", std::process::id());
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    seed: u64,
    tier: String,
    violation: Violation,
}

pub fn supervise(id: &str) -> i32 {
    let Some(prop) = checks::all().into_iter().find(|p| p.id == id) else {
        eprintln!("no such property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let dir = scratch(id);
    let n = env("VERIF_JOBS", &std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).to_string())
        .parse::<usize>()
        .unwrap_or(4);
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = (0..n)
        .map(|w| {
            Command::new(&exe)
                .args(["worker", id, &w.to_string(), &n.to_string(), &dir])
                .stdin(Stdio::null())
                .stderr(std::fs::File::create(format!("{dir}/stderr.{w}")).unwrap())
                .spawn()
                .expect("spawn worker")
        })
        .collect();
    let mut rep = Report::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut broken = vec![];
    for (w, k) in kids.iter_mut().enumerate() {
        let st = k.wait().expect("wait");
        if st.success() {
            let r: Report = serde_json::from_slice(&std::fs::read(format!("{dir}/report.{w}")).unwrap()).unwrap();
            rep.evaluations += r.evaluations;
            for (k, v) in r.counters {
                let m = k.starts_with("max_");
                let e = rep.counters.entry(k).or_insert(0);
                *e = if m { v.max(*e) } else { *e + v };
            }
            rep.samples.extend(r.samples);
            rep.violations.extend(r.violations);
            rep.notes.extend(r.notes);
            for c in std::fs::read(format!("{dir}/distinct.{w}")).unwrap().chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
            continue;
        }
        use std::os::unix::process::ExitStatusExt;
        let err = std::fs::read_to_string(format!("{dir}/stderr.{w}")).unwrap_or_default();
        let crash = std::fs::read(format!("{dir}/crash.{w}")).unwrap_or_default();
        let aborted = st.signal() == Some(libc::SIGABRT) || st.signal() == Some(libc::SIGSEGV);
        let hung = st.code() == Some(77) && crash.first() == Some(&b'N');
        let out_of_memory = err.contains("memory allocation of");
        let owns = id == "C06" || id == "C07";
        if (aborted && crash.first() == Some(&b'S') && (owns || !out_of_memory)) || hung {
            let body = &crash[1..];
            let z = body.iter().position(|b| *b == 0).unwrap_or(0);
            let workload = String::from_utf8_lossy(&body[..z]).to_string();
            let rest = &body[(z + 1).min(body.len())..];
            let data = match rest.first() {
                Some(b'T') => Data::Text(String::from_utf8_lossy(&rest[1..]).to_string()),
                _ => Data::Seed(String::from_utf8_lossy(rest.get(1..).unwrap_or(&[])).parse().unwrap_or(0)),
            };
            rep.violations.push(Violation {
                kind: if hung { "no-return" } else { "crash" }.into(),
                detail: if hung {
                    format!("the library used over {} s of CPU time on this one case without returning", ctx::CASE_CPU_S)
                } else {
                    format!("process died inside the library: {}", err.lines().last().unwrap_or(""))
                },
                workload,
                data,
            });
        } else {
            broken.push(format!("worker {w}: {st}: {}", err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ")));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    // split off the known findings
    let kf = known(id);
    let mut new = vec![];
    let mut seen = HashSet::new();
    for v in &rep.violations {
        let m = kf.iter().find(|k| {
            k.kind == v.kind
                && match (&k.input, &v.data) {
                    (Some(i), Data::Text(t)) => i == t,
                    (Some(_), _) => false,
                    (None, _) => k.workload.as_deref() == Some(v.workload.as_str()),
                }
        });
        match m {
            Some(k) => {
                if seen.insert(k.what.clone()) {
                    println!("KNOWN-FINDING: property={id} {}", k.what);
                }
            }
            None => new.push(v.clone()),
        }
    }
    let fewest = 1000;
    rep.samples.truncate(6);
    let mut cov = serde_json::json!({
        "evaluations": rep.evaluations,
        "distinct_nontrivial": distinct.len(),
        "rule": prop.rule,
        "samples": rep.samples,
        "observed": rep.counters,
        "workers": n,
    });
    if !rep.notes.is_empty() {
        rep.notes.truncate(20);
        cov["notes"] = serde_json::json!(rep.notes);
    }
    if std::env::var("VERIF_NO_EVIDENCE").is_err() {
        let ev = serde_json::json!({
            "property": id,
            "tier": if thorough() { "thorough" } else { "quick" },
            "seed": seed(),
            "level": "exploration",
            "coverage": cov,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": new.len(),
        });
        let d = format!("{}/evidence", verif());
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(format!("{d}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    let _ = fewest;
    if !new.is_empty() {
        let mut shown = HashSet::new();
        for v in new.iter() {
            let key = format!("{}{:?}", v.kind, v.data);
            if !shown.insert(key.clone()) || shown.len() > 12 {
                continue;
            }
            let d = format!("{}/evidence/replay", verif());
            std::fs::create_dir_all(&d).unwrap();
            let path = format!("{d}/{id}-{:016x}.json", hash_bytes(key.as_bytes()));
            let f = ReplayFile {
                property: id.into(),
                seed: seed(),
                tier: if thorough() { "thorough" } else { "quick" }.into(),
                violation: v.clone(),
            };
            std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).unwrap();
            let s: String = match &v.data {
                Data::Text(t) => format!("{:?}", t.chars().take(300).collect::<String>()),
                Data::Seed(s) => format!("case seed {s}"),
            };
            println!("VIOLATION property={id} replay={path}");
            println!("  kind={} workload={} {}", v.kind, v.workload, v.detail.chars().take(600).collect::<String>());
            println!("  input={s}");
        }
        return 1;
    }
    if !broken.is_empty() {
        for b in broken.iter().take(3) {
            eprintln!("NO ANSWER: {}", b.chars().take(700).collect::<String>());
        }
        return 2;
    }
    println!(
        "OK property={id} evaluations={} distinct_nontrivial={} wall={:.1}s",
        rep.evaluations,
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}

pub fn replay(path: &str) -> i32 {
    let f: ReplayFile = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay json");
    let dir = scratch("replay");
    ctx::install(&format!("{dir}/crash"));
    let _ = std::fs::remove_dir_all(&dir);
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let p = checks::all().into_iter().find(|p| p.id == f.property).expect("property");
        let mut c = Ctx::new(f.seed, f.tier == "thorough", 0, 1, verif());
        c.publish(&f.violation.workload, &f.violation.data);
        match (p.replay)(&mut c, &f.violation.workload, &f.violation.data) {
            Outcome::Viol(k, d) => {
                println!("VIOLATION property={} replay=(this)\n  kind={k} {d}", f.property);
                1
            }
            Outcome::Held(_) => {
                println!("held");
                0
            }
            Outcome::Skip(w) => {
                println!("not judged: {w}");
                0
            }
        }
    });
    h.unwrap().join().unwrap_or(2)
}
