use crate::util::*;
use geqslib::shunting::*;
use serde_json::{json, Value};
use std::collections::HashMap;

type Fun = Box<dyn Fn(&HashMap<String, f64>) -> anyhow::Result<f64>>;

/// Replays a history of compilations, calls and evaluations
pub fn store(case: &Value) -> Value {
    let mut ctxs: HashMap<String, (ContextHashMap, Vec<String>)> = HashMap::new();
    for (name, c) in case["ctxs"].as_object().unwrap() {
        let vars = c["vars"].as_object().unwrap().keys().cloned().collect();
        ctxs.insert(name.clone(), (context(c), vars));
    }
    let mut funs: Vec<Fun> = vec![];
    let mut out = vec![];
    for s in arr(&case["steps"]) {
        let ctx = &ctxs[st(&s["ctx"])].0;
        let r = match st(&s["op"]) {
            "compile" => match compile_to_fn_of_hashmap(st(&s["src"]), ctx) {
                Ok(f) => {
                    funs.push(Box::new(f));
                    json!({ "ok": 0 })
                }
                Err(e) => json!({ "err": e.to_string() }),
            },
            "compile1" => match compile_to_fn(st(&s["src"]), ctx) {
                Ok(f) => {
                    funs.push(Box::new(move |m: &HashMap<String, f64>| f(*m.values().next().unwrap())));
                    json!({ "ok": 0 })
                }
                Err(e) => json!({ "err": e.to_string() }),
            },
            "call" => {
                let f = &funs[us(&s["fun"]) - 1];
                let m = num_map(&s["args"]);
                guard(|| res(f(&m)))
            }
            "eval" => guard(|| res(eval_str_with_context(st(&s["src"]), ctx))),
            _ => bad("store operation"),
        };
        let mut store = serde_json::Map::new();
        for (name, (c, vars)) in &ctxs {
            let vals: serde_json::Map<String, Value> =
                vars.iter().map(|v| (v.clone(), eval_str_with_context(v, c).map(num).unwrap_or(json!("error")))).collect();
            store.insert(name.clone(), Value::Object(vals));
        }
        out.push(json!({ "out": r, "store": store }));
    }
    json!({ "steps": out })
}
