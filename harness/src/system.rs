use crate::util::*;
use geqslib::system::*;
use serde_json::{json, Value};

/// Builds, specifies and solves a system
pub fn system(case: &Value) -> Value {
    let eqs: Vec<&str> = arr(&case["eqs"]).iter().map(st).collect();
    let mut b = match SystemBuilder::new(eqs[0], context(&case["ctx"])) {
        Ok(b) => b,
        Err(e) => return json!({ "build": e.to_string() }),
    };
    for e in &eqs[1..] {
        match b.try_constrain_with(e) {
            Ok(ConstrainResult::WillConstrain) => {}
            other => return json!({ "build": format!("{other:?} for {e}") }),
        }
    }
    let mut sys = match b.build_system() {
        Some(s) => s,
        None => return json!({ "build": "not fully constrained" }),
    };
    let specs: Vec<bool> = arr(&case["specs"]).iter().map(|s| sys.specify_variable(st(&s[0]), f(&s[1]), f(&s[2]), f(&s[3]))).collect();
    let out = match sys.solve(f(&case["margin"]), us(&case["limit"])) {
        Ok(m) => json!({ "ok": map_json(&m) }),
        Err(e) => json!({ "err": e.to_string() }),
    };
    json!({ "specs": specs, "out": out })
}

/// Solves one equation with a context, several times over; reports the context
/// before and after each time
pub fn one(case: &Value) -> Value {
    let mut ctx = context(&case["ctx"]);
    let mut out = vec![];
    let before = ctx_json(&ctx);
    for s in arr(&case["solves"]) {
        let (text, g) = (st(&s["text"]), &s["with"]);
        let r = if g.is_null() {
            geqslib::solve_equation_from_str(text, f(&s["margin"]), us(&s["limit"]))
        } else {
            geqslib::solve_equation_with_context(text, &mut ctx, f(&g[0]), f(&g[1]), f(&g[2]), f(&s["margin"]), us(&s["limit"]))
        };
        let r = match r {
            Ok((n, v)) => json!({ "ok": [n, num(v)] }),
            Err(e) => json!({ "err": e.to_string() }),
        };
        out.push(json!({ "out": r, "same": ctx_json(&ctx) == before, "ctx": if ctx_json(&ctx) == before { json!(null) } else { ctx_json(&ctx) } }));
    }
    json!({ "steps": out })
}
