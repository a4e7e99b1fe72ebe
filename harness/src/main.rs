//! `harness check ID`      searches for a violation of property ID and writes its evidence
//! `harness replay FILE`   runs the case of a replay file
//! `harness one FILE`      the same, for the shrinking of cases that exceed their budget
//! `harness deep N`        reads and prints N nested collapsibles on a stack of 8 MB
mod ast;
mod cov;
mod dict;
mod engine;
mod gen;
mod lex;
mod memory;
mod model;
mod props;
mod refprint;
mod scale;
mod seeds;
mod tape;

use engine::Case;
use std::path::PathBuf;
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// Runs the deep case in a child process.
pub fn deep_child(n: usize) -> Result<(), String> {
    let o = Command::new(std::env::current_exe().unwrap())
        .arg("deep")
        .arg(n.to_string())
        .stdin(Stdio::null())
        .output()
        .expect("run self");
    if o.status.success() {
        Ok(())
    } else {
        Err(format!("{} {}", o.status, brief_line(&o.stderr)))
    }
}

fn deep(n: usize) {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let s = format!("{}{}", "{% a\n".repeat(n), "%}\n".repeat(n));
            let y = yamd::deserialize(&s);
            assert!(y.body.len() == 1, "not one collapsible");
            if n <= 2000 {
                let p = y.to_string();
                assert!(yamd::deserialize(&p) == y, "printing changes it");
            }
        })
        .unwrap()
        .join()
        .unwrap();
}

/// What a process that reads nothing else makes of a source, in surroundings of a kind.
pub fn fresh_digest(s: &str, surroundings: usize) -> Result<String, String> {
    let f = case_file(s);
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("reading").arg(&f).stdin(Stdio::null());
    match surroundings % 3 {
        0 => {}
        1 => {
            c.arg("-").env_clear().current_dir("/");
        }
        _ => {
            c.args(["--verbose", "-x", "--strict", "1", "a.md", "b"]).current_dir(engine::scratch());
            for v in ["DEBUG", "STRICT", "RUST_BACKTRACE", "CI", "TEST", "YAMD", "YAMD_STRICT", "YAMD_DEBUG", "NO_COLOR", "VERBOSE"] {
                c.env(v, "1");
            }
            for v in ["LANG", "LC_ALL", "LC_CTYPE"] {
                c.env(v, "tr_TR.ISO-8859-9");
            }
            c.env("TZ", "Asia/Kathmandu").env("HOME", "/nonexistent").env("USER", "").env("TMPDIR", "/nonexistent");
            // names among the strings of the code
            for v in dict::dict().novel.iter().filter(|v| v.len() > 2 && v.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_')) {
                c.env(v, "1");
            }
        }
    }
    let o = c.output().expect("run self");
    std::fs::remove_file(&f).ok();
    if o.status.success() {
        Ok(String::from_utf8_lossy(&o.stdout).trim().to_string())
    } else {
        Err(format!("{} {}", o.status, brief_line(&o.stderr)))
    }
}

fn brief_line(e: &[u8]) -> String {
    String::from_utf8_lossy(e).trim().replace('\n', " ").chars().take(200).collect()
}

/// Runs a command-line tool of the repository (built by check.sh).
pub fn utils(args: &[&str]) -> Result<Output, String> {
    let bin = std::env::var_os("UTILS_BIN").map(PathBuf::from).unwrap_or_else(|| {
        eprintln!("HARNESS ERROR: UTILS_BIN is not set");
        std::process::exit(2);
    });
    Command::new(bin).args(args).stdin(Stdio::null()).output().map_err(|e| {
        eprintln!("HARNESS ERROR: cannot run the tools: {e}");
        std::process::exit(2);
    })
}

pub fn case_file(s: &str) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let f = engine::scratch().join(format!("case-{}-{}.yamd", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&f, s).expect("write case file");
    f
}

fn prop(id: &str) -> &'static engine::Prop {
    props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    })
}

fn read_replay(f: &str) -> (String, Case) {
    let s = std::fs::read_to_string(f).expect("read replay file");
    let v: serde_json::Value = serde_json::from_str(&s).expect("replay file");
    (
        v["property"].as_str().expect("property").to_string(),
        serde_json::from_value(v["case"].clone()).expect("case"),
    )
}

fn big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(sc, || {
                cov::install();
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn self_check() {
    let steps = big_stack(|| {
        cov::reset(u64::MAX, usize::MAX);
        let _ = yamd::deserialize("# a");
        cov::steps()
    });
    if cov::guards() < 100 || steps < 10 {
        eprintln!("HARNESS ERROR: the crate under test is not instrumented");
        std::process::exit(2);
    }
}

/// Findings listed for a property: the case and the text.
fn known(id: &str) -> Vec<(String, String)> {
    let f = engine::verif().join("known_findings.txt");
    let s = std::fs::read_to_string(f).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == id)
        .filter_map(|(_, l)| l.strip_prefix("case=")?.split_once(' '))
        .map(|(c, t)| (c.to_string(), t.to_string()))
        .collect()
}

fn check(id: &str) -> i32 {
    let p = prop(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    self_check();
    engine::install_hooks(id);
    let ctx = engine::Ctx {
        prop: p,
        tier: tier.to_string(),
        seed,
    };
    let mut findings = 0;
    for (case, what) in known(id) {
        if let Some(n) = case.strip_prefix("depth:").and_then(|n| n.parse().ok()) {
            match deep_child(n) {
                Err(e) => {
                    findings += 1;
                    println!("KNOWN-FINDING: property={id} {what} [{case}: {}]", e.trim());
                }
                Ok(()) => println!("the listed finding {case} no longer fails"),
            }
        }
    }
    let mut sum = engine::search(&ctx);
    sum.coverage["known_findings_seen"] = findings.into();
    let ev = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": sum.coverage,
        "assumptions": p.assumptions,
        "wall_s": sum.wall,
        "violations": sum.violations,
    });
    let dir = engine::verif().join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence directory");
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
    println!(
        "{id}: {} cases, {} distinct non-trivial, {} discarded, {} of {} edges, {:.1} s",
        ev["coverage"]["evaluations"],
        ev["coverage"]["distinct_nontrivial"],
        ev["coverage"]["discarded"],
        ev["coverage"]["edges_reached"],
        ev["coverage"]["edges_instrumented"],
        sum.wall
    );
    if sum.violations > 0 {
        1
    } else {
        0
    }
}

fn replay(f: &str) -> i32 {
    let (id, case) = read_replay(f);
    let p = prop(&id);
    engine::install_hooks(&id);
    let r = big_stack(|| engine::run_case(p.check, &case));
    match r {
        Ok(o) => {
            println!("{id} holds: {o:?}");
            0
        }
        Err(m) => {
            println!("{id} fails on {case:?}\n{m}");
            1
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a[..] {
        ["check", id] => check(id),
        ["replay", f] | ["one", f] => {
            // a budget exceeded here is reported by the exit code
            std::env::set_var("HARNESS_ONE", "1");
            replay(f)
        }
        ["reading", f, ..] => {
            let t = std::fs::read_to_string(f).expect("read source");
            // by the main thread, where its stack suffices
            let d = if a.len() > 2 && t.len() < 3_000 { props::digest(&t) } else { big_stack(|| props::digest(&t)) };
            println!("{d}");
            0
        }
        ["work", f] => {
            let t = std::fs::read_to_string(f).expect("read source");
            big_stack(|| {
                cov::reset(u64::MAX, usize::MAX);
                drop(yamd::deserialize(&t));
                println!("{} bytes, {} steps, budget {}", t.len(), cov::steps(), engine::budget(&t));
            });
            0
        }
        ["dict"] => {
            println!("{:?}\n{:?}\n{} scaled sources", dict::dict().novel, dict::dict().novel_ints, scale::sources().len());
            0
        }
        ["deep", n] => {
            deep(n.parse().expect("number"));
            0
        }
        ["measure", lexeme, n] => {
            // the work and the stack of reading a repeated lexeme
            let t = lexeme.replace("\\n", "\n").repeat(n.parse::<usize>().expect("number") / lexeme.len());
            big_stack(|| {
                cov::reset(u64::MAX, usize::MAX);
                let y = yamd::deserialize(&t);
                let a = cov::steps();
                let p = y.to_string();
                println!("{} bytes: {a} steps to read, {} to print {}, {} bytes of stack", t.len(), cov::steps() - a, p.len(), cov::max_stack());
            });
            0
        }
        _ => {
            eprintln!("usage: harness check ID | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
