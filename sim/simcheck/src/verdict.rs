use std::collections::BTreeSet;
#[derive(Clone, Debug, Default)]
pub struct Verdict {
    pub violations: Vec<(String, String)>,
    pub nontrivial: bool,
    pub probes: BTreeSet<String>,
}
impl Verdict {
    pub fn bad(&mut self, class: &str, msg: String) {
        self.violations.push((class.to_string(), msg));
    }
    pub fn probe(&mut self, p: &str) {
        self.probes.insert(p.to_string());
    }
    pub fn probe_if(&mut self, c: bool, p: &str) {
        if c {
            self.probe(p)
        }
    }
}
