use crate::util::*;
use geqslib::system::*;
use serde_json::{json, Value};

fn names(b: &Option<SystemBuilder>) -> Value {
    match b {
        None => json!(null),
        Some(b) => {
            let mut v = b.get_vars().clone();
            v.sort();
            json!({ "vars": v, "full": b.is_fully_constrained() })
        }
    }
}

/// Replays a history of a system builder
pub fn builder(case: &Value) -> Value {
    let mut b: Option<SystemBuilder> = None;
    let mut out = vec![];
    for s in arr(&case["steps"]) {
        let r = match st(&s["op"]) {
            "new" => match SystemBuilder::new(st(&s["text"]), context(&case["ctx"])) {
                Ok(x) => {
                    b = Some(x);
                    json!({ "ok": "ok" })
                }
                Err(e) => json!({ "err": e.to_string() }),
            },
            "add" => match b.as_mut().unwrap().try_constrain_with(st(&s["text"])) {
                Ok(ConstrainResult::WillConstrain) => json!({ "ok": "will" }),
                Ok(ConstrainResult::WillNotConstrain) => json!({ "ok": "not" }),
                Ok(ConstrainResult::WillOverConstrain) => json!({ "ok": "over" }),
                Err(e) => json!({ "err": e.to_string() }),
            },
            "list" => match b.as_mut().unwrap().try_fully_constrain_with(arr(&s["list"]).iter().map(st).collect()) {
                Ok(x) => json!({ "ok": x }),
                Err(e) => json!({ "err": e.to_string() }),
            },
            "build" => match b.take().unwrap().build_system() {
                Some(mut sys) => {
                    let mine: Vec<&str> = arr(&s["probe"]).iter().map(st).filter(|n| sys.specify_variable(n, 1.0, -5.0, 5.0)).collect();
                    json!({ "ok": mine })
                }
                None => json!({ "none": 0 }),
            },
            other => bad(&format!("step, not {other}")),
        };
        out.push(json!({ "out": r, "state": names(&b) }));
    }
    json!({ "steps": out })
}
