//! Verdicts, evidence and known findings.
use crate::smt::{Verdict, Z3};
use std::collections::BTreeSet;
use std::io::Write;
use std::time::Instant;

pub struct Report {
    pub pid: String,
    pub tier: String,
    pub seed: u64,
    start: Instant,
    pub functions: BTreeSet<String>,
    pub bounds: Vec<String>,
    pub outside: Vec<String>,
    pub assumptions: BTreeSet<String>,
    pub samples: Vec<String>,
    pub explanation: String,
    pub cases: usize,
    pub obligations: usize,
    pub discharged: usize,
    pub vacuity_witnesses: usize,
    pub paths: usize,
    pub forks: usize,
    pub replays: usize,
    pub queries: usize,
    pub sat: usize,
    pub unsat: usize,
    pub unknown: usize,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub extra: Vec<(String, String)>,
    violations: Vec<(String, String)>,
    known: Vec<String>,
    pub inconclusive: Vec<String>,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().map(|s| js(&s)).collect::<Vec<_>>().join(","))
}

impl Report {
    pub fn new(pid: &str) -> Report {
        let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Report {
            pid: pid.into(),
            tier,
            seed,
            start: Instant::now(),
            functions: Default::default(),
            bounds: vec![],
            outside: vec![],
            assumptions: Default::default(),
            samples: vec![],
            explanation: String::new(),
            cases: 0,
            obligations: 0,
            discharged: 0,
            vacuity_witnesses: 0,
            paths: 0,
            forks: 0,
            replays: 0,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            solver_s: 0.0,
            max_query_s: 0.0,
            extra: vec![],
            violations: vec![],
            known: vec![],
            inconclusive: vec![],
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn fns(&mut self, l: &[&str]) {
        for f in l {
            self.functions.insert(f.to_string());
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.insert(s.to_string());
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(s);
        }
    }
    pub fn absorb(&mut self, z: &Z3) {
        self.queries += z.queries;
        self.sat += z.sat;
        self.unsat += z.unsat;
        self.unknown += z.unknown;
        self.solver_s += z.time;
        self.max_query_s = self.max_query_s.max(z.max_time);
    }
    /// Book `n` obligations decided by one verdict.
    pub fn oblige(&mut self, n: usize, v: Verdict) {
        self.obligations += n;
        if v == Verdict::Unsat {
            self.discharged += n;
        }
    }
    /// A reproduced violation.  `key` identifies the failing input/call site for the known-findings file.
    pub fn violation(&mut self, key: &str, detail: &str) {
        let kf = concat!(env!("CARGO_MANIFEST_DIR"), "/../known-findings.txt");
        let kf = std::fs::read_to_string(kf).unwrap_or_default();
        for l in kf.lines() {
            if let Some(r) = l.strip_prefix(&format!("finding: property={} ", self.pid)) {
                if r.split(" :: ").next() == Some(key) {
                    if !self.known.iter().any(|k| k == l) {
                        println!("KNOWN-FINDING: property={} {}", self.pid, r);
                        self.known.push(l.to_string());
                    }
                    return;
                }
            }
        }
        let cut = |s: &str| s.chars().take(600).collect::<String>();
        eprintln!("violation [{}]: {}", cut(key), cut(detail));
        self.violations.push((key.to_string(), detail.to_string()));
    }
    pub fn inconclusive(&mut self, s: String) {
        eprintln!("inconclusive: {}", s);
        self.inconclusive.push(s);
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }

    pub fn finish(mut self) -> i32 {
        let root = concat!(env!("CARGO_MANIFEST_DIR"), "/..");
        let dir = format!("{}/evidence", root);
        std::fs::create_dir_all(&dir).ok();
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov: Vec<(String, String)> = vec![
            ("explanation".into(), js(&self.explanation)),
            ("cases".into(), self.cases.to_string()),
            ("obligations".into(), self.obligations.to_string()),
            ("discharged".into(), self.discharged.to_string()),
            ("functions_encoded".into(), arr(self.functions.iter().cloned())),
            ("bounds".into(), arr(self.bounds.clone())),
            ("outside_claim".into(), arr(self.outside.clone())),
            ("queries".into(), self.queries.to_string()),
            ("queries_unsat".into(), self.unsat.to_string()),
            ("queries_sat".into(), self.sat.to_string()),
            ("queries_unknown".into(), self.unknown.to_string()),
            ("solver_s".into(), format!("{:.3}", self.solver_s)),
            ("max_query_s".into(), format!("{:.3}", self.max_query_s)),
            ("symbolic_paths".into(), self.paths.to_string()),
            ("path_conditions_on_symbols".into(), self.forks.to_string()),
            ("vacuity_witnesses".into(), self.vacuity_witnesses.to_string()),
            ("replays".into(), self.replays.to_string()),
            ("samples".into(), arr(self.samples.clone())),
            ("known_findings".into(), arr(self.known.clone())),
            ("inconclusive".into(), arr(self.inconclusive.clone())),
            ("solver".into(), js(&std::env::var("VH_Z3").unwrap_or("z3".into()))),
        ];
        cov.append(&mut self.extra);
        let body = cov.iter().map(|(k, v)| format!("  {}: {}", js(k), v)).collect::<Vec<_>>().join(",\n");
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"other\",\n \"coverage\": {{\n{}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            js(&self.pid), js(&self.tier), self.seed, body, arr(self.assumptions.iter().cloned()), wall, self.violations.len()
        );
        std::fs::write(format!("{}/{}.json", dir, self.pid), ev).expect("evidence");
        if !self.violations.is_empty() {
            let rdir = format!("{}/evidence/replay", root);
            std::fs::create_dir_all(&rdir).ok();
            let f = format!("{}/{}.txt", rdir, self.pid);
            let mut h = std::fs::File::create(&f).unwrap();
            for (k, d) in &self.violations {
                writeln!(h, "[{}]\n{}\n", k, d).unwrap();
                let cut = |s: &str| s.chars().take(300).collect::<String>();
                println!("violation: {}: {}", cut(k), cut(d.lines().next().unwrap_or("")));
            }
            println!("VIOLATION property={} replay=evidence/replay/{}.txt", self.pid, self.pid);
            return 1;
        }
        if !self.inconclusive.is_empty() || self.obligations == 0 {
            println!("INCONCLUSIVE property={} ({} open)", self.pid, self.inconclusive.len());
            return 2;
        }
        println!(
            "OK property={} cases={} obligations={}/{} queries={} solver_s={:.2} wall_s={:.1}",
            self.pid, self.cases, self.discharged, self.obligations, self.queries, self.solver_s, wall
        );
        0
    }
}
