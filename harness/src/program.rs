use crate::util::*;
use nexsys::{basic_solve, solve_with_preprocessors};
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn triples(v: &Value) -> HashMap<String, [f64; 3]> {
    v.as_object()
        .map(|m| m.iter().map(|(k, x)| (k.clone(), [f(&x[0]), f(&x[1]), f(&x[2])])).collect())
        .unwrap_or_default()
}

/// Solves a program with the library
pub fn program(case: &Value) -> Value {
    let (text, margin, limit) = (st(&case["text"]), f(&case["margin"]), us(&case["limit"]));
    let r = if case["mode"].as_str() == Some("full") {
        solve_with_preprocessors(text, margin, limit)
    } else {
        let mut ctx = context(&case["ctx"]);
        let mut declared = triples(&case["declared"]);
        basic_solve(text, &mut ctx, &mut declared, margin, limit)
    };
    match r {
        Ok((log, m)) => json!({ "ok": map_json(&m), "log": log }),
        Err(e) => json!({ "err": e.to_string() }),
    }
}
