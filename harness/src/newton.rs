use crate::util::*;
use geqslib::newton::*;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Debug)]
struct Scripted(&'static str);
impl std::fmt::Display for Scripted {
    fn fmt(&self, w: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(w, "{}", self.0)
    }
}
impl std::error::Error for Scripted {}

/// The function of the specification: linear in each cell around an integer
fn cell_fn(case: &Value) -> impl Fn(f64) -> Result<f64, Scripted> {
    let cells: Vec<(f64, String, f64, f64, f64)> = arr(&case["cells"])
        .iter()
        .map(|c| (f(&c[0]), st(&c[1]).to_string(), f(&c[2]), f(&c[3]), f(&c[4])))
        .collect();
    move |x: f64| {
        if !x.is_finite() {
            return Ok(f64::NAN);
        }
        let c = (x + 0.5).floor();
        match cells.iter().find(|k| k.0 == c) {
            None => Err(Scripted("evaluated outside the explored cells")),
            Some((_, kind, x0, y, s)) => match kind.as_str() {
                "fail" => Err(Scripted("scripted failure")),
                "edge" if (x - x0).abs() > 1e-7 => Err(Scripted("scripted failure")),
                "nan" => Ok(f64::NAN),
                "blank" if (x - x0).abs() > 1e-7 => Ok(f64::NAN),
                _ => Ok(y + s * (x - x0)),
            },
        }
    }
}

pub fn newton(case: &Value) -> Value {
    let (guess, margin, limit) = (f(&case["guess"]), f(&case["margin"]), us(&case["limit"]));
    let out = if case["roots"].is_array() {
        let roots: Vec<f64> = arr(&case["roots"]).iter().map(f).collect();
        let lead = f(&case["lead"]);
        newton_raphson(move |x: f64| Ok::<f64, Scripted>(roots.iter().fold(lead, |p, r| p * (x - r))), guess, margin, limit)
    } else {
        newton_raphson(cell_fn(case), guess, margin, limit)
    };
    json!({ "out": res(out) })
}

/// Systems: "cells" [[cell], kind, [x0], [y], [[jacobian]]] over the unknowns "names"
pub fn mnewton(case: &Value) -> Value {
    let names: Vec<String> = arr(&case["names"]).iter().map(|n| st(n).to_string()).collect();
    let vec_of = |v: &Value| -> Vec<f64> { arr(v).iter().map(f).collect() };
    let cells: Vec<(Vec<f64>, String, Vec<f64>, Vec<f64>, Vec<Vec<f64>>)> = arr(&case["cells"])
        .iter()
        .map(|c| (vec_of(&c[0]), st(&c[1]).to_string(), vec_of(&c[2]), vec_of(&c[3]), arr(&c[4]).iter().map(vec_of).collect()))
        .collect();
    let whole = case["whole"].as_bool() == Some(true); // one linear piece everywhere
    let rows: Vec<usize> = arr(&case["rows"]).iter().map(us).collect();
    let funcs: Vec<Box<dyn Fn(&HashMap<String, f64>) -> Result<f64, Scripted>>> = rows
        .into_iter()
        .map(|row| {
            let (names, cells) = (names.clone(), cells.clone());
            let b: Box<dyn Fn(&HashMap<String, f64>) -> Result<f64, Scripted>> = Box::new(move |m: &HashMap<String, f64>| {
                let mut x = vec![];
                for n in &names {
                    x.push(*m.get(n).ok_or(Scripted("an unknown is missing"))?);
                }
                if m.len() != names.len() {
                    return Err(Scripted("an unknown too many"));
                }
                if x.iter().any(|v| !v.is_finite()) {
                    return Ok(f64::NAN);
                }
                let c: Vec<f64> = x.iter().map(|v| (v + 0.5).floor()).collect();
                match cells.iter().find(|k| whole || k.0 == c) {
                    None => Err(Scripted("evaluated outside the explored cells")),
                    Some((_, kind, x0, y, jac)) => match kind.as_str() {
                        "fail" if row == 1 => Err(Scripted("scripted failure")),
                        "edge" if row == 1 && x.iter().zip(x0).any(|(a, b)| (a - b).abs() > 1e-7) => Err(Scripted("scripted failure")),
                        "nan" if row == 1 => Ok(f64::NAN),
                        "blank" if row == 1 && x.iter().zip(x0).any(|(a, b)| (a - b).abs() > 1e-7) => Ok(f64::NAN),
                        _ => Ok(y[row] + jac[row].iter().zip(x.iter().zip(x0)).map(|(j, (a, b))| j * (a - b)).sum::<f64>()),
                    },
                }
            });
            b
        })
        .collect();
    let mut guess = num_map(&case["guess"]);
    let out = match multivariate_newton_raphson(funcs, &mut guess, f(&case["margin"]), us(&case["limit"])) {
        Ok(m) => json!({ "ok": map_json(m) }),
        Err(e) => json!({ "err": e.to_string() }),
    };
    json!({ "out": out })
}
