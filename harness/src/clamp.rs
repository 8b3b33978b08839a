use crate::util::*;
use geqslib::variable::Variable;
use serde_json::{json, Value};

fn apply<T: Into<f64> + Copy>(v: &mut Variable, op: &str, x: T) {
    match op {
        "set" => v.set(x),
        "+=" => *v += x,
        "-=" => *v -= x,
        "*=" => *v *= x,
        "/=" => *v /= x,
        _ => bad("operation"),
    }
}

pub fn clamp(case: &Value) -> Value {
    let (lo, hi) = (f(&case["lo"]), f(&case["hi"]));
    let ty = st(&case["type"]);
    let steps: Vec<(&str, f64)> = arr(&case["steps"]).iter().map(|s| (st(&s[0]), f(&s[1]))).collect();
    let mut v = match ty {
        "u8" => Variable::new(steps[0].1 as u8, lo as u8, hi as u8),
        "f32" => Variable::new(steps[0].1 as f32, lo as f32, hi as f32),
        _ => Variable::new(steps[0].1, lo, hi),
    };
    let see = |v: &Variable| json!([num(f64::from(*v)), num(v.min), num(v.max)]);
    let mut out = vec![see(&v)];
    for (op, x) in &steps[1..] {
        match ty {
            "u8" => apply(&mut v, op, *x as u8),
            "i32" => apply(&mut v, op, *x as i32),
            "f32" => apply(&mut v, op, *x as f32),
            _ => apply(&mut v, op, *x),
        }
        out.push(see(&v));
    }
    json!({ "steps": out })
}
