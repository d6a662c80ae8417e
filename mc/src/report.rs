//! Verdicts, replay files, known findings, evidence.

use crate::par::Violation;
use std::path::PathBuf;
use std::time::Instant;

pub fn verif_dir() -> PathBuf {
    std::env::var("MC_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Ordered JSON object writer.
#[derive(Default, Clone)]
pub struct Json(Vec<(String, String)>);
impl Json {
    pub fn new() -> Json {
        Json(Vec::new())
    }
    pub fn num(mut self, k: &str, v: u64) -> Json {
        self.0.push((k.into(), v.to_string()));
        self
    }
    pub fn flt(mut self, k: &str, v: f64) -> Json {
        self.0.push((k.into(), format!("{:.4}", v)));
        self
    }
    pub fn bool(mut self, k: &str, v: bool) -> Json {
        self.0.push((k.into(), v.to_string()));
        self
    }
    pub fn str(mut self, k: &str, v: &str) -> Json {
        self.0.push((k.into(), esc(v)));
        self
    }
    pub fn strs(mut self, k: &str, v: &[String]) -> Json {
        self.0.push((k.into(), format!("[{}]", v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "))));
        self
    }
    pub fn obj(mut self, k: &str, v: Json) -> Json {
        self.0.push((k.into(), v.render()));
        self
    }
    pub fn render(&self) -> String {
        format!(
            "{{{}}}",
            self.0.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(",\n ")
        )
    }
}

pub struct Ev {
    pub prop: &'static str,
    pub level: &'static str,
    pub coverage: Json,
    pub assumptions: Vec<String>,
}

pub fn write_evidence(e: &Ev, t0: Instant, violations: u64) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let j = Json::new()
        .str("property", e.prop)
        .str("tier", if thorough() { "thorough" } else { "quick" })
        .num("seed", seed())
        .str("level", e.level)
        .obj("coverage", e.coverage.clone())
        .strs("assumptions", &e.assumptions)
        .flt("wall_s", t0.elapsed().as_secs_f64())
        .num("violations", violations);
    std::fs::write(dir.join(format!("{}.json", e.prop)), j.render() + "\n").expect("evidence");
}

/// Lines "known: property=<id> | <exact replay text> | <description>" of known_findings.txt.
pub fn known(prop: &str, replay: &str) -> Option<String> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).ok()?;
    let head = format!("known: property={} |", prop);
    for l in text.lines() {
        if let Some(r) = l.strip_prefix(&head) {
            let mut it = r.splitn(2, '|');
            if it.next().map(|x| x.trim()) == Some(replay.trim()) {
                return Some(it.next().unwrap_or("").trim().to_string());
            }
        }
    }
    None
}

pub fn write_replay(prop: &str, v: &Violation) -> String {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("replay-{}.txt", prop));
    let _ = std::fs::write(&p, format!("property={}\n{}\n# {}\n", prop, v.replay, v.what.replace('\n', " ")));
    p.display().to_string()
}

pub fn print_violation(prop: &str, v: &Violation) {
    let p = write_replay(prop, v);
    println!("{}: {}", prop, v.what);
    println!("case: {}", v.replay.chars().take(600).collect::<String>());
    println!("VIOLATION property={} replay={}", prop, p);
}

pub fn violation_exit(prop: &str, v: &Violation) -> ! {
    print_violation(prop, v);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}
