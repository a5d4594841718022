//! Runs a Kani proof of /verif/kani (symbolic execution of the compiled code by CBMC).
use std::process::Command;
use std::time::Instant;

pub struct KaniRun {
    pub ok: Option<bool>,
    pub secs: f64,
    pub steps: String,
    pub bytes: Vec<Vec<u8>>,
    pub tail: String,
}
/// `env`: variables for the build.  Memory-safety checks are off: the code is safe Rust.
pub fn run(harness: &str, env: &[(&str, &str)], timeout_s: u64) -> KaniRun {
    let t = Instant::now();
    let root = concat!(env!("CARGO_MANIFEST_DIR"), "/..");
    let mut go = |extra: &[&str]| {
        let mut c = Command::new("timeout");
        c.arg(timeout_s.to_string())
            .args(["cargo", "kani", "--exact", "--harness", harness, "--target-dir"])
            .arg(format!("{}/.build/kani", root))
            .args(["--no-memory-safety-checks", "--no-overflow-checks", "--no-undefined-function-checks", "-Z", "unstable-options", "-Z", "concrete-playback"])
            .args(extra)
            .args(["--verbose", "--cbmc-args", "--no-standard-checks", "--no-pointer-check", "--unwinding-assertions"])
            .current_dir(format!("{}/kani", root))
            .env("RUSTFLAGS", "--cfg verif_hooks -Awarnings")
            .env("CARGO_NET_OFFLINE", "true")
            .env_remove("RUSTUP_TOOLCHAIN");
        for (k, v) in env {
            c.env(k, v);
        }
        let o = c.output().expect("cargo kani");
        format!("{}\n{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))
    };
    let mut out = go(&[]);
    let ok = if out.contains("VERIFICATION:- SUCCESSFUL") {
        Some(true)
    } else if out.contains("VERIFICATION:- FAILED") {
        Some(false)
    } else {
        None
    };
    let mut bytes = vec![];
    if ok == Some(false) {
        let o2 = go(&["--concrete-playback=print"]);
        // lines of the form  vec![1, 2, 3],
        for l in o2.lines() {
            if let Some(r) = l.trim().strip_prefix("vec![") {
                if let Some(r) = r.strip_suffix("],").or(r.strip_suffix("]")) {
                    let b: Vec<u8> = r.split(',').filter_map(|x| x.trim().parse().ok()).collect();
                    if !b.is_empty() {
                        bytes.push(b);
                    }
                }
            }
        }
        out.push_str(&o2);
    }
    let steps = out.lines().find(|l| l.contains("size of program expression")).unwrap_or("").trim().to_string();
    let tail: Vec<&str> = out.lines().filter(|l| l.contains("Failed Checks") || l.starts_with("error") || l.contains("VERIFICATION") || l.contains(" failed")).collect();
    KaniRun { ok, secs: t.elapsed().as_secs_f64(), steps, bytes, tail: tail.join("; ") }
}

pub struct Many {
    pub ok: Vec<String>,
    /// harness, failed checks
    pub failed: Vec<(String, String)>,
    pub covers: usize,
    pub solver_s: f64,
    pub secs: f64,
    pub complete: bool,
    pub tail: String,
}
/// All harnesses whose names contain one of the filters, eight at a time.
pub fn run_many(filters: &[&str], env: &[(&str, &str)], timeout_s: u64) -> Many {
    let t = Instant::now();
    let root = concat!(env!("CARGO_MANIFEST_DIR"), "/..");
    let mut c = Command::new("timeout");
    c.arg(timeout_s.to_string()).args(["cargo", "kani"]);
    for f in filters {
        c.args(["--harness", f]);
    }
    c.arg("--target-dir")
        .arg(format!("{}/.build/kani", root))
        .args(["--no-memory-safety-checks", "--no-overflow-checks", "--no-undefined-function-checks", "-Z", "unstable-options", "-j", "8", "--output-format=terse"])
        .args(["--cbmc-args", "--no-standard-checks", "--no-pointer-check", "--unwinding-assertions", "--max-field-sensitivity-array-size", "256"])
        .current_dir(format!("{}/kani", root))
        .env("RUSTFLAGS", "--cfg verif_hooks -Awarnings")
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTUP_TOOLCHAIN");
    for (k, v) in env {
        c.env(k, v);
    }
    let o = c.output().expect("cargo kani");
    let out = format!("{}\n{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    let mut at: std::collections::HashMap<String, String> = Default::default();
    let mut cur = String::new();
    let mut m = Many { ok: vec![], failed: vec![], covers: 0, solver_s: 0.0, secs: 0.0, complete: out.contains("Complete - "), tail: String::new() };
    let mut why = String::new();
    for l in out.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("Thread ") {
            if let Some((th, rest)) = r.split_once(':') {
                if let Some(h) = rest.trim().strip_prefix("Checking harness ") {
                    at.insert(th.to_string(), h.trim_end_matches("...").to_string());
                } else {
                    cur = at.get(th).cloned().unwrap_or_default();
                    why.clear();
                }
            }
        } else if let Some(h) = l.strip_prefix("Checking harness ") {
            cur = h.trim_end_matches("...").to_string();
            why.clear();
        } else if let Some(f) = l.strip_prefix("Failed Checks: ") {
            why.push_str(f);
            why.push_str("; ");
        } else if l.contains("cover properties satisfied") {
            let n: Vec<usize> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if n.len() == 2 && n[0] == n[1] {
                m.covers += 1;
            } else {
                why.push_str("unreachable end; ");
            }
        } else if l.starts_with("VERIFICATION:- SUCCESSFUL") {
            m.ok.push(cur.clone());
        } else if l.starts_with("VERIFICATION:- FAILED") {
            m.failed.push((cur.clone(), why.clone()));
        } else if let Some(s) = l.strip_prefix("Verification Time: ") {
            m.solver_s += s.trim_end_matches('s').parse::<f64>().unwrap_or(0.0);
        }
    }
    let tail: Vec<&str> = out.lines().filter(|l| l.starts_with("error") || l.contains("Verification failed") || l.contains("CBMC failed")).take(12).collect();
    m.tail = tail.join("; ");
    m.secs = t.elapsed().as_secs_f64();
    m
}
