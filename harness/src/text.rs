use crate::program::triples;
use crate::util::*;
use geqslib::shunting::{eval_str_with_context, ContextLike};
use nexsys::parsing::*;
use serde_json::{json, Value};
use std::collections::HashMap;

/// The value of "a" and of "b" in each line "a = b" for the given values of the names
fn sides(text: &str, ctx: &geqslib::shunting::ContextHashMap, vals: &Value) -> Value {
    let mut ctx = ctx.clone();
    for (k, x) in num_map(vals) {
        ctx.add_const_to_ctx(&k, x);
    }
    Value::Array(
        text.lines()
            .filter(|l| l.contains('='))
            .map(|l| Value::Array(l.split('=').map(|s| res(eval_str_with_context(s, &ctx))).collect()))
            .collect(),
    )
}

/// Compiles a program to equations
pub fn compile_text(case: &Value) -> Value {
    let mut ctx = context(&case["ctx"]);
    let mut declared = triples(&case["declared"]);
    match compile(st(&case["text"]), &mut ctx, &mut declared) {
        Ok(t) => json!({ "ok": t, "ctx": ctx_json(&ctx), "sides": sides(&t, &ctx, &case["values"]),
            "declared": declared.iter().map(|(k, d)| (k.clone(), Value::Array(d.iter().map(|x| num(*x)).collect()))).collect::<serde_json::Map<_, _>>() }),
        Err(e) => json!({ "err": e.to_string() }),
    }
}

fn dmap(m: HashMap<String, [f64; 2]>) -> Value {
    Value::Object(m.iter().map(|(k, d)| (k.clone(), json!([num(d[0]), num(d[1])]))).collect())
}

/// One of the functions that treat one kind of item
pub fn text(case: &Value) -> Value {
    let t = st(&case["text"]);
    let r = match st(&case["fun"]) {
        "comments" => Ok((comments(t), Value::Null)),
        "consts" => consts(t).map(|x| (x, Value::Null)),
        "conversions" => conversions(t).map(|x| (x, Value::Null)),
        "conditionals" => conditionals(t).map(|x| (x, Value::Null)),
        "const_values" => const_values(t).map(|(x, m)| (x, map_json(&m))),
        "guess_values" => Ok({
            let (x, m) = guess_values(t);
            (x, map_json(&m))
        }),
        "domains" => Ok({
            let (x, m) = domains(t);
            (x, dmap(m))
        }),
        other => bad(&format!("function {other}")),
    };
    match r {
        Ok((x, m)) => json!({ "ok": x, "map": m }),
        Err(e) => json!({ "err": e.to_string() }),
    }
}
