//! Findings and their serialisation
use crate::core::Site;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Report {
    /// key -> (property list, function, span, message, path)
    pub finds: BTreeMap<String, Find>,
    pub und: BTreeSet<String>,
}
pub struct Find {
    pub props: Vec<String>,
    pub rule: String,
    pub func: String,
    pub span: String,
    pub msg: String,
    pub path: Vec<String>,
    pub sum: usize,
}
impl Report {
    pub fn add(&mut self, props: &[&str], rule: &str, site: &Site, msg: String) {
        let key = format!("{}|{}|{}|{}", props.join(","), rule, site.func, msg);
        if std::env::var("ENGINE_DEBUG").is_ok() && !self.finds.contains_key(&key) {
            eprintln!("FOUND {key} at {}", site.span);
        }
        self.finds.entry(key).or_insert_with(|| Find {
            props: props.iter().map(|s| s.to_string()).collect(),
            rule: rule.to_string(),
            func: site.func.clone(),
            span: site.span.clone(),
            msg,
            path: site.path(),
            sum: site.sum,
        });
    }
    pub fn json(&self) -> serde_json::Value {
        json!(self
            .finds
            .values()
            .map(|f| json!({"props": f.props, "rule": f.rule, "func": f.func, "span": f.span, "msg": f.msg, "path": f.path}))
            .collect::<Vec<_>>())
    }
}
