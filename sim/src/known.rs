//! Known findings: committed in /verif/known_findings.json, never written by a check.
use serde::Deserialize;

#[derive(Clone, Debug, Deserialize)]
pub struct Known {
    pub id: String,
    pub property: String,
    pub what: String,
    #[serde(default)]
    pub status: String,
}

pub fn entries(prop: &str) -> Vec<Known> {
    let all: Vec<Known> = serde_json::from_str(include_str!("../../known_findings.json")).expect("known_findings.json");
    all.into_iter().filter(|k| k.property == prop && k.status != "fixed").collect()
}
