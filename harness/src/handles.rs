//! The C interfaces, driven by sequences of calls, with every block they
//! allocate watched.
use crate::alloc;
use crate::util::*;
use gmatlib::ffi::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::c_void;

/// Runs a C call with allocations tracked
pub fn tracked<R>(call: impl FnOnce() -> R) -> R {
    alloc::on();
    let r = call();
    alloc::off();
    r
}

fn read(p: *mut c_void) -> Value {
    let get = |i: usize, j: usize| index_double_matrix(p, i as u32, j as u32);
    let end = f64::MIN;
    let r = (0..64).take_while(|i| get(*i, 0) != end).count();
    let c = if r == 0 { 0 } else { (0..64).take_while(|j| get(0, *j) != end).count() };
    let v: Vec<Value> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| num(get(i, j))).collect();
    json!({"r": r, "c": c, "v": v})
}

/// One pass over a list of calls. Handles are named; a call that makes one puts it under "d".
fn pass(case: &Value) -> Value {
    let mut live: BTreeMap<String, *mut c_void> = BTreeMap::new();
    let mut out = vec![];
    for o in arr(&case["calls"]) {
        let x: Vec<i64> = arr(&o["x"]).iter().map(|v| v.as_i64().unwrap()).collect();
        let (op, d) = (st(&o["op"]), st(&o["d"]).to_string());
        let h = |n: &str| live.get(st(&o[n])).copied();
        let u = |i: usize| x[i] as u32;
        let mut made = None;
        let null: *mut c_void = std::ptr::null_mut();
        let needs_a = !matches!(op, "new" | "identity" | "huge" | "huge identity");
        if needs_a && h("a").is_none() {
            out.push(json!({"out": "no such handle"}));
            break;
        }
        let a = h("a").unwrap_or(null);
        let res = match op {
            "new" => { made = Some(tracked(|| new_double_matrix(u(0), u(1)))); json!(0) }
            "identity" => { made = Some(tracked(|| new_double_identity_matrix(u(0)))); json!(0) }
            "huge" => json!(tracked(|| new_double_matrix(u32::MAX, u32::MAX)).is_null()),
            "huge identity" => json!(tracked(|| new_double_identity_matrix(u32::MAX)).is_null()),
            "clone" => { made = Some(tracked(|| clone_double_matrix(a))); json!(0) }
            "transpose" => { made = Some(tracked(|| transpose(a))); json!(0) }
            "subset" => { made = Some(tracked(|| subset(a, u(0), u(1), u(2), u(3)))); json!(0) }
            "multiply" | "augment" => match h("b") {
                None => json!("no such handle"),
                Some(b) => {
                    made = Some(tracked(|| if op == "multiply" { multiply_matrix(a, b) } else { augment_with(a, b) }));
                    json!(0)
                }
            },
            "scale" => json!(tracked(|| inplace_scale(a, x[0] as f64))),
            "swap" => json!(tracked(|| inplace_row_swap(a, u(0), u(1)))),
            "row_scale" => json!(tracked(|| inplace_row_scale(a, u(0), x[1] as f64))),
            "row_add" => json!(tracked(|| inplace_row_add(a, u(0), u(1)))),
            "scaled_row_add" => json!(tracked(|| inplace_scaled_row_add(a, u(0), u(1), x[2] as f64))),
            "set" => json!(tracked(|| index_mut_double_matrix(a, u(0), u(1), x[2] as f64))),
            "get" => num(tracked(|| index_double_matrix(a, u(0), u(1)))),
            "trace" => num(tracked(|| trace(a))),
            "invert" => json!(tracked(|| try_inplace_invert(a))),
            "fill" => {
                let vals: Vec<f64> = arr(&o["vals"]).iter().map(f).collect();
                let c = us(&o["c"]).max(1);
                let bad = (0..vals.len()).filter(|k| tracked(|| index_mut_double_matrix(a, (k / c) as u32, (k % c) as u32, vals[*k])) != 1).count();
                json!(if bad == 0 { 1 } else { 0 })
            }
            "free" => {
                live.remove(st(&o["a"]));
                tracked(|| free_double_matrix(a));
                json!(0)
            }
            _ => bad("call"),
        };
        let mut null_result = false;
        if let Some(p) = made {
            null_result = p.is_null();
            if !null_result {
                live.insert(d, p);
            }
        }
        let regs: serde_json::Map<String, Value> = live.iter().map(|(n, p)| (n.clone(), read(*p))).collect();
        out.push(json!({"out": res, "null": null_result, "regs": regs}));
    }
    let left = live.len();
    let r = alloc::report();
    json!({"steps": out, "left": left, "double_frees": r.double_frees, "written_after_free": r.written_after_free, "leaked": r.leaked})
}

/// Two passes: blocks that stay after the second one only are leaks (the first may
/// set up things that stay for good)
pub fn handles(case: &Value) -> Value {
    let first = pass(case);
    let second = pass(case);
    json!({"first": first, "second": second})
}
