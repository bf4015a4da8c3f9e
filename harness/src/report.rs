//! Verdicts, replay files and evidence.

use crate::explore::{Found, Stats};
use std::{fs, path::PathBuf};

pub fn root() -> PathBuf {
    std::env::var("VP_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn save_replay(prop: &str, text: &str) -> String {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}.txt"));
    let _ = fs::write(&p, format!("property={prop}\n{text}"));
    p.display().to_string()
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o
}

/// Listed findings of a property: lines `open: property=<id> <text>`; a violation is that finding
/// if its replay contains the text.
pub fn known(prop: &str) -> Vec<String> {
    let f = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    f.lines()
        .filter_map(|l| l.strip_prefix("open: property=")?.split_once(' '))
        .filter(|x| x.0 == prop)
        .map(|x| x.1.trim().to_string())
        .collect()
}

pub struct Part {
    pub name: String,
    pub stats: Stats,
    pub bound: String,
}

#[derive(Default)]
pub struct Report {
    pub parts: Vec<Part>,
    pub found: Vec<Found>,
    pub exhaustive: bool,
}

impl Report {
    pub fn new() -> Self {
        Report { exhaustive: true, ..Default::default() }
    }

    pub fn write_evidence(&self, prop: &str, tier: &str, wall: f64, known: &[String]) {
        let mut t = Stats::default();
        for p in &self.parts {
            t.add(&p.stats);
        }
        let mut parts = String::new();
        for (i, p) in self.parts.iter().enumerate() {
            let s = &p.stats;
            if i > 0 {
                parts += ",";
            }
            let kinds: Vec<String> = s
                .kinds
                .iter()
                .map(|(k, v)| format!("\"{}\":{{\"accepted\":{},\"refused\":{}}}", esc(k), v.0, v.1))
                .collect();
            parts += &format!(
                "{{\"name\":\"{}\",\"bound\":\"{}\",\"states\":{},\"transitions\":{},\"accepted\":{},\"required_to_fail\":{},\"required_to_succeed\":{},\"open\":{},\"depth\":{},\"traces\":{},\"state_space_closed\":{},\"outcomes\":{{{}}}}}",
                esc(&p.name), esc(&p.bound), s.states, s.transitions, s.accepted, s.must_fail, s.must_succeed, s.open, s.depth, s.traces, s.closed, kinds.join(",")
            );
        }
        let samples: Vec<String> = t.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let known: Vec<String> = known.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
        let out = format!(
            "{{\"property\":\"{prop}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"model_checking\",\"wall_s\":{wall:.2},\"violations\":{},\"known_findings\":[{}],\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"samples\":[{}],\"method\":\"every transition executes the real processor code on a native runtime and is compared with the reference model; states are the real account bytes\",\"parts\":[{parts}]}}}}\n",
            self.found.len(),
            known.join(","),
            t.states,
            t.transitions,
            t.traces,
            self.exhaustive,
            samples.join(",")
        );
        let dir = root().join("evidence");
        let _ = fs::create_dir_all(&dir);
        fs::write(dir.join(format!("{prop}.json")), out).expect("evidence");
    }
}
