//! Evidence, replay files and known findings.

use crate::engine::*;
use std::fmt::Write;
use std::path::{Path, PathBuf};

pub struct Finding
{
    pub key: String,
    pub text: String,
}

/// Lines `finding: property=ID key=KEY text`. Everything else is documentation.
pub fn known_findings(prop: &str) -> Vec<Finding>
{
    let path = crate::verif_dir().join("known-findings.txt");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let rest = match line.strip_prefix("finding: property=") {
            Some(r) => r,
            None => continue,
        };
        let mut parts = rest.splitn(3, ' ');
        let p = parts.next().unwrap_or("");
        let key = parts.next().unwrap_or("");
        let text = parts.next().unwrap_or("");
        if p == prop {
            if let Some(key) = key.strip_prefix("key=") {
                out.push(Finding {
                    key: key.to_string(),
                    text: text.to_string(),
                });
            }
        }
    }
    out
}

fn json_str(s: &str) -> String
{
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn seed() -> i64
{
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn write_evidence(prop: &str, text: &str)
{
    let dir = crate::verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence directory");
    std::fs::write(dir.join(format!("{}.json", prop)), text).expect("evidence file");
}

pub fn crash_evidence(prop: &str, tier: &str, what: &str, wall: f64)
{
    let text = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[{}],\"exhaustive\":false}},\"wall_s\":{:.3},\"violations\":1}}\n",
        json_str(prop), json_str(tier), seed(), json_str(what), wall
    );
    write_evidence(prop, &text);
}

pub fn evidence(prop: &str, tier: &str, r: &Runner, wall: f64)
{
    let t = &r.total;
    let complete = r.spaces.iter().all(|s| s.complete) && r.found.is_none();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
        json_str(prop), json_str(tier), seed()
    );
    let _ = write!(
        o,
        "  \"states\": {},\n  \"transitions\": {},\n  \"distinct_transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases\": {},\n  \"exhaustive\": {},\n",
        t.states.len(), t.steps, t.edges.len(), t.traces, t.evals, complete
    );
    o.push_str("  \"meaning\": \"states: distinct abstract states of the reference model; transitions: steps the reference model took; traces_validated_against_impl: executions of the real code whose complete outcome was compared with the reference; cases: choice sequences enumerated\",\n");
    o.push_str("  \"spaces\": [\n");
    for (i, s) in r.spaces.iter().enumerate() {
        let _ = writeln!(
            o,
            "   {{\"name\": {}, \"bounds\": {}, \"cases\": {}, \"states\": {}, \"wall_s\": {:.2}, \"complete\": {}}}{}",
            json_str(&s.name), json_str(&s.bounds), s.cases, s.states, s.wall, s.complete,
            if i + 1 < r.spaces.len() { "," } else { "" }
        );
    }
    o.push_str("  ],\n  \"outcomes\": {");
    for (i, (k, v)) in t.outcomes.iter().enumerate() {
        let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, json_str(k), v);
    }
    o.push_str("},\n  \"known_findings_seen\": {");
    for (i, (k, v)) in t.known.iter().enumerate() {
        let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, json_str(k), v.0);
    }
    o.push_str("},\n  \"samples\": [\n");
    let samples: Vec<&String> = t.samples.iter().take(40).collect();
    for (i, s) in samples.iter().enumerate() {
        let _ = writeln!(o, "   {}{}", json_str(s), if i + 1 < samples.len() { "," } else { "" });
    }
    let _ = write!(
        o,
        "  ]\n }},\n \"assumptions\": [\"the reference models in /verif/mc/src state the protobuf rules correctly\", \"behaviour outside the stated bounds is not covered\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        wall,
        if r.found.is_some() { 1 } else { 0 }
    );
    write_evidence(prop, &o);
}

pub struct Replay
{
    pub property: String,
    pub tier: String,
    pub space: u64,
    pub choices: Vec<u32>,
}

pub fn write_replay(
    prop: &str,
    tier: &str,
    space: u64,
    name: &str,
    choices: &[u32],
    msg: &str,
) -> PathBuf
{
    let dir = crate::verif_dir().join("replays");
    std::fs::create_dir_all(&dir).expect("replay directory");
    let id = hash_of(&(space, choices));
    let path = dir.join(format!("{}-{:016x}.txt", prop, id));
    let choices: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let text = format!(
        "property: {}\ntier: {}\nspace: {}\nspace-name: {}\nchoices: {}\nreplay with: /verif/mc/run.sh replay {}\n\n{}\n",
        prop, tier, space, name, choices.join(" "), path.display(), msg
    );
    std::fs::write(&path, text).expect("replay file");
    path
}

pub fn read_replay(path: &Path) -> Replay
{
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |key: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(key))
            .unwrap_or_else(|| panic!("no {} in the replay file", key))
            .trim()
            .to_string()
    };
    Replay {
        property: get("property:"),
        tier: get("tier:"),
        space: get("space:").parse().expect("space"),
        choices: get("choices:")
            .split_whitespace()
            .map(|c| c.parse().expect("choice"))
            .collect(),
    }
}
