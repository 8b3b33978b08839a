use crate::util::*;
use nexsys::units::*;
use serde_json::{json, Value};

/// Everything the tables of units and constants say
pub fn units(_case: &Value) -> Value {
    let u = unit_data();
    json!({
        "units": u.iter().map(|(q, m)| (q.clone(), map_json(m))).collect::<serde_json::Map<_, _>>(),
        "consts": map_json(&const_data()),
    })
}

pub fn conversions(case: &Value) -> Value {
    json!({ "out": arr(&case["pairs"]).iter().map(|p| res(convert(st(&p[0]), st(&p[1])))).collect::<Vec<_>>() })
}
