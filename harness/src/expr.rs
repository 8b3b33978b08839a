use crate::util::*;
use geqslib::shunting::*;
use serde_json::{json, Value};
use std::collections::HashMap;

/// Evaluates one text in every way the crate offers. `vars` hold junk values
/// when it is compiled; `vals` are the values given in the calls.
pub fn expr(case: &Value) -> Value {
    let src = st(&case["src"]);
    let vals = num_map(&case["vals"]);
    let mut out = serde_json::Map::new();

    // interpreted, with the variables holding their values
    let mut ctx = context(&case["ctx"]);
    for (k, v) in &vals {
        ctx.add_var_to_ctx(k, *v);
    }
    out.insert("ctx".into(), guard(|| res(eval_str_with_context(src, &ctx))));

    // compiled to a function of a map, called twice with other calls between
    out.insert("map".into(), guard(|| {
        let mut junk = context(&case["ctx"]);
        for k in vals.keys() {
            junk.add_var_to_ctx(k, 0.7258);
        }
        match compile_to_fn_of_hashmap(src, &junk) {
            Err(e) => json!({ "err": e.to_string() }),
            Ok(func) => {
                let first = func(&vals);
                let other: HashMap<String, f64> = vals.keys().map(|k| (k.clone(), 1.618)).collect();
                let _ = func(&other);
                let second = func(&vals);
                match (&first, &second) {
                    (Ok(a), Ok(b)) if a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) => res(first),
                    (Err(_), Err(_)) => res(first),
                    _ => json!({ "differs": [res(first), res(second)] }),
                }
            }
        }
    }));

    // compiled to a function of one number, which needs exactly one variable
    if vals.len() == 1 {
        let (k, v) = vals.iter().next().unwrap();
        out.insert("one".into(), guard(|| {
            let mut junk = context(&case["ctx"]);
            junk.add_var_to_ctx(k, 0.7258);
            match compile_to_fn(src, &junk) {
                Err(e) => json!({ "err": e.to_string() }),
                Ok(func) => {
                    let _ = func(2.5);
                    res(func(*v))
                }
            }
        }));
    }

    // without any context of our own
    if case["plain"].as_bool() == Some(true) {
        out.insert("plain".into(), guard(|| res(eval_str(src))));
    }
    // a well-formed expression afterwards is not affected
    out.insert("after".into(), guard(|| res(eval_str("7 - 2 * 3"))));
    Value::Object(out)
}
