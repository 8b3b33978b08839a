//! The C interfaces of geqslib and nexsys, driven by sequences of calls.
use crate::alloc;
use crate::handles::tracked;
use crate::util::*;
use geqslib::ffi as g;
use nexsys::ffi as n;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CStr, CString};

type Obj = *mut c_void;

fn c(v: &Value) -> CString {
    CString::new(st(v)).unwrap()
}

fn pass(case: &Value) -> Value {
    let mut ctx: BTreeMap<usize, Obj> = BTreeMap::new();
    let mut bld: BTreeMap<usize, Obj> = BTreeMap::new();
    let mut sys: BTreeMap<usize, Obj> = BTreeMap::new();
    let mut decl: BTreeMap<usize, Obj> = BTreeMap::new();
    let mut txt: BTreeMap<usize, (*mut c_char, Vec<u8>)> = BTreeMap::new();
    let mut out = vec![];
    for s in arr(&case["calls"]) {
        let (o, to, t) = (us(&s["o"]), us(&s["to"]), us(&s["t"]));
        let dom: Vec<f64> = arr(&s["dom"]).iter().map(f).collect();
        let op = st(&s["op"]);
        let have = match op {
            "new_ctx" | "new_decl" | "solve_text" => true,
            "add_const" | "solve_equation" | "new_builder" | "free_ctx" => ctx.contains_key(&o),
            "constrain" | "is_full" | "build" | "free_builder" | "debug" => bld.contains_key(&o),
            "specify" | "solve_system" | "free_system" => sys.contains_key(&o),
            "add_decl" | "free_decl" => decl.contains_key(&o),
            "basic_solve" => ctx.contains_key(&o) && decl.contains_key(&to),
            "free_text" => txt.contains_key(&t),
            _ => bad("call"),
        };
        if !have {
            out.push(json!({"missing": true}));
            break;
        }
        let margin = if s["margin"].is_null() { 0.0 } else { f(&s["margin"]) };
        let text = if s["text"].is_null() { CString::new("").unwrap() } else { c(&s["text"]) };
        let name = if s["name"].is_null() { CString::new("").unwrap() } else { c(&s["name"]) };
        let mut code = json!(null);
        let mut soln: Option<*mut c_char> = None;
        let mut made: Option<bool> = None;
        let mut put = |m: &mut BTreeMap<usize, Obj>, k: usize, p: Obj| {
            made = Some(!p.is_null());
            if !p.is_null() {
                m.insert(k, p);
            }
        };
        unsafe {
            match op {
                "new_ctx" => {
                    let p = tracked(|| if st(&s["base"]) == "empty" { g::new_context_hash_map() } else { g::new_default_context_hash_map() });
                    put(&mut ctx, to, p)
                }
                "add_const" => tracked(|| g::add_const_to_ctx(ctx[&o], name.as_ptr(), f(&s["val"]))),
                "free_ctx" => {
                    let p = ctx.remove(&o).unwrap();
                    tracked(|| g::free_context_hash_map(p))
                }
                "solve_equation" => soln = Some(tracked(|| g::solve_equation(text.as_ptr(), ctx[&o], dom[0], dom[1], dom[2], margin, 60)) as *mut c_char),
                "new_builder" => {
                    let p = tracked(|| g::new_system_builder(text.as_ptr(), ctx[&o])) as Obj;
                    put(&mut bld, to, p)
                }
                "constrain" => code = json!(tracked(|| g::try_constrain_with(bld[&o], text.as_ptr()))),
                "is_full" => code = json!(tracked(|| g::is_fully_constrained(bld[&o]))),
                "debug" => tracked(|| g::debug_system_builder(bld[&o])),
                "build" => {
                    let b = bld.remove(&o).unwrap();
                    let p = tracked(|| g::build_system(b)) as Obj;
                    put(&mut sys, to, p)
                }
                "free_builder" => {
                    let p = bld.remove(&o).unwrap();
                    tracked(|| g::free_system_builder(p))
                }
                "specify" => code = json!(tracked(|| g::specify_variable(sys[&o], name.as_ptr(), dom[0], dom[1], dom[2]))),
                "solve_system" => {
                    let p = sys.remove(&o).unwrap();
                    soln = Some(tracked(|| g::solve_system(p, margin, 60)) as *mut c_char)
                }
                "free_system" => {
                    let p = sys.remove(&o).unwrap();
                    tracked(|| g::free_system(p))
                }
                "new_decl" => {
                    let p = tracked(|| n::new_declared_hash_map());
                    put(&mut decl, to, p)
                }
                "add_decl" => code = json!(tracked(|| n::add_declared_variable(decl[&o], name.as_ptr(), dom[0], dom[1], dom[2]))),
                "free_decl" => {
                    let p = decl.remove(&o).unwrap();
                    tracked(|| n::free_declared_hash_map(p))
                }
                "basic_solve" => soln = Some(tracked(|| n::basic_solve(text.as_ptr(), ctx[&o], decl[&to], margin, 60))),
                "solve_text" => soln = Some(tracked(|| n::solve_with_preprocessors(text.as_ptr(), margin, 60))),
                "free_text" => {
                    let p = txt.remove(&t).unwrap().0;
                    tracked(|| g::free_solution_string(p))
                }
                _ => unreachable!(),
            }
        }
        let mut text_out = json!(null);
        if let Some(p) = soln {
            made = Some(!p.is_null());
            if !p.is_null() {
                let bytes = unsafe { CStr::from_ptr(p) }.to_bytes().to_vec();
                text_out = json!(String::from_utf8_lossy(&bytes));
                txt.insert(t, (p, bytes));
            }
        }
        // the texts still owned by the caller have not changed
        let kept = txt.values().all(|(p, b)| unsafe { CStr::from_ptr(*p) }.to_bytes() == &b[..]);
        // what the library itself gives for the same text
        let lib = if op == "solve_text" {
            match nexsys::solve_with_preprocessors(st(&s["text"]), margin, 60) {
                Ok((log, m)) => json!({"log": log.join("\n"), "soln": map_json(&m)}),
                Err(_) => json!(null),
            }
        } else {
            json!(null)
        };
        out.push(json!({"code": code, "made": made, "text": text_out, "kept": kept, "lib": lib}));
    }
    let r = alloc::report();
    json!({"steps": out, "double_frees": r.double_frees, "written_after_free": r.written_after_free, "leaked": r.leaked})
}

pub fn solver_handles(case: &Value) -> Value {
    let first = pass(case);
    let second = pass(case);
    json!({"first": first, "second": second})
}
