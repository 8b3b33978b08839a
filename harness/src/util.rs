use serde_json::{json, Value};
use std::any::Any;
use std::collections::HashMap;
use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};

pub fn panic_text(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

/// Runs `f`, giving its panic as {"panic": text}
pub fn guard(f: impl FnOnce() -> Value) -> Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => json!({ "panic": panic_text(&p) }),
    }
}

/// A number, given as a JSON number or as text ("inf", "-inf", "nan" included)
pub fn f(v: &Value) -> f64 {
    match v {
        Value::String(s) => s.parse().unwrap_or_else(|_| bad(&format!("number {s:?}"))),
        Value::Number(n) => n.as_f64().unwrap(),
        _ => bad(&format!("number {v}")),
    }
}

pub fn num(x: f64) -> Value {
    if x.is_nan() {
        json!("nan")
    } else if x.is_infinite() {
        json!(if x > 0.0 { "inf" } else { "-inf" })
    } else {
        json!(x)
    }
}

pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| bad(&format!("index {v}"))) as usize
}

pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| bad(&format!("text {v}")))
}

pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| bad(&format!("list {v}")))
}

pub fn bad(what: &str) -> ! {
    eprintln!("harness: expected a {what}");
    std::process::exit(3)
}

pub fn res(r: anyhow::Result<f64>) -> Value {
    match r {
        Ok(v) => json!({ "ok": num(v) }),
        Err(e) => json!({ "err": e.to_string() }),
    }
}

/// A function of our own with three arguments (the crate passes them last to first)
fn wsum3(a: &[f64]) -> f64 {
    a[2] + 10.0 * a[1] + 100.0 * a[0]
}

/// {"consts": {name: value}, "vars": {name: value | [value, min, max]}, "base": "default" | "empty"}
pub fn context(v: &Value) -> ContextHashMap {
    let mut ctx = if v["base"].as_str() == Some("empty") { ContextHashMap::new() } else { new_context() };
    if v["own_functions"].as_bool() == Some(true) {
        ctx.add_func_to_ctx("wsum3", wsum3, 3);
    }
    if let Some(m) = v["consts"].as_object() {
        for (k, x) in m {
            ctx.add_const_to_ctx(k, f(x));
        }
    }
    if let Some(m) = v["vars"].as_object() {
        for (k, x) in m {
            match x {
                Value::Array(a) => ctx.add_var_with_domain_to_ctx(k, f(&a[0]), f(&a[1]), f(&a[2])),
                _ => ctx.add_var_to_ctx(k, f(x)),
            }
        }
    }
    ctx
}

pub fn num_map(v: &Value) -> HashMap<String, f64> {
    v.as_object().map(|m| m.iter().map(|(k, x)| (k.clone(), f(x))).collect()).unwrap_or_default()
}

pub fn map_json(m: &HashMap<String, f64>) -> Value {
    Value::Object(m.iter().map(|(k, x)| (k.clone(), num(*x))).collect())
}

/// What a context defines: names and values
pub fn ctx_json(c: &ContextHashMap) -> Value {
    Value::Object(
        c.iter()
            .map(|(k, t)| {
                (k.clone(), match t {
                    Token::Num(x) => json!(["num", num(*x)]),
                    Token::Var(v) => json!(["var", num(f64::from(*v.borrow()))]),
                    Token::Func(n, _) => json!(["func", n]),
                    _ => json!(["other"]),
                })
            })
            .collect(),
    )
}
