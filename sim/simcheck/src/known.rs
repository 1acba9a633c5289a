//! The committed list of genuine defects that were recorded instead of repaired. Read-only here.
use serde::Deserialize;

#[derive(Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    /// "known": reported as KNOWN-FINDING; "fixed": history, suppresses nothing
    pub status: String,
    #[serde(default)]
    pub class: String,
    /// the violation's message must contain each of these
    #[serde(default)]
    pub contains: Vec<String>,
    pub what: String,
    #[serde(default)]
    pub id: String,
}

pub fn load() -> Vec<Known> {
    let p = std::path::Path::new(&std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("known-findings.txt");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    t.lines().filter(|l| l.trim_start().starts_with('{')).map(|l| serde_json::from_str(l).expect("known-findings.txt")).collect()
}

pub fn matching(all: &[Known], prop: &str, class: &str, msg: &str) -> Option<String> {
    all.iter()
        .find(|k| k.status == "known" && k.property == prop && k.class == class && !k.contains.is_empty() && k.contains.iter().all(|c| msg.contains(c)))
        .map(|k| k.id.clone())
}
