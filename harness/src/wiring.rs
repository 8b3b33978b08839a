//! Nodes and elements put together by hand.
use crate::util::*;
use neapolitan::dc_circuits::*;
use neapolitan::flux_formulas::*;
use neapolitan::heat_transfer::*;
use neapolitan::modelling::{GenericElement, GenericNode};
use neapolitan::{get_node_potential, is_locked, lock_node, set_node_potential, Matrix};
use serde_json::{json, Value};
use std::cell::{Ref, RefCell, RefMut};
use std::rc::{Rc, Weak};

type Node = RefCell<GenericNode>;

fn at(n: &Rc<Node>) -> anyhow::Result<Vec<f64>> {
    Ok(get_node_potential(&Rc::downgrade(n))?.into())
}

/// A flux that depends on both potentials, but not on their difference
fn prod(i: Rc<Node>, o: Rc<Node>, gain: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    let (a, b) = (at(&i)?, at(&o)?);
    Ok(Matrix::from_col_vec(a.iter().zip(&b).map(|(x, y)| gain[(0, 0)] * x * (y + 1.0)).collect()))
}

/// A flux that depends on the direction given to the element
fn flag(i: Rc<Node>, o: Rc<Node>, _: &Matrix<f64>, drives_output: bool) -> anyhow::Result<Matrix<f64>> {
    let (a, b) = (at(&i)?, at(&o)?);
    Ok(Matrix::from_col_vec(if drives_output { a } else { b }))
}

fn fail(_: Rc<Node>, _: Rc<Node>, _: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    anyhow::bail!("no flux")
}

fn vector(r: anyhow::Result<Matrix<f64>>) -> Value {
    match r {
        Ok(m) if m.get_cols() == 1 => json!(Vec::<f64>::from(m).into_iter().map(num).collect::<Vec<_>>()),
        Ok(m) => json!(format!("a matrix of {} x {}", m.get_rows(), m.get_cols())),
        Err(_) => json!(["err"]),
    }
}

enum Held {
    Read(#[allow(dead_code)] Ref<'static, GenericNode>),
    Write(#[allow(dead_code)] RefMut<'static, GenericNode>),
}

fn make(s: &Value, i: Weak<Node>, o: Weak<Node>) -> anyhow::Result<Rc<GenericElement>> {
    let gain: Vec<f64> = arr(&s["gain"]).iter().map(f).collect();
    match st(&s["c"]) {
        "resistor" => resistor(i, o, gain),
        "voltage_source" => voltage_source(i, o, gain),
        "current_source" => current_source(i, o, gain),
        "conductor" => conductor(i, o, gain),
        "convection_interface" => convection_interface(i, o, gain),
        "temperature_delta" => temperature_delta(i, o, gain),
        "heat_flux" => heat_flux(i, o, gain),
        "own" => {
            let e = &s["e"];
            let flux = match st(&e["ty"]) {
                "lin" => normal_flux,
                "const" => constant_flux,
                "obs" => observe_flux,
                "prod" => prod,
                "flag" => flag,
                "fail" => fail,
                _ => bad("flux formula"),
            };
            GenericElement::try_new(gain, i, o, flux, st(&e["drv"]) == "o", e["cin"].as_bool().unwrap(), e["cout"].as_bool().unwrap())
        }
        _ => bad("constructor"),
    }
}

pub fn wiring(case: &Value) -> Value {
    let mut nodes: Vec<(Option<Rc<Node>>, Weak<Node>)> = vec![];
    let mut els: Vec<(Option<Rc<GenericElement>>, Weak<GenericElement>)> = vec![];
    let mut held: Vec<(Held, *const Node)> = vec![];
    let mut out = vec![];
    for s in arr(&case["steps"]) {
        let n = || us(&s["n"]) - 1;
        let v = || arr(&s["v"]).iter().map(f).collect::<Vec<f64>>();
        out.push(match st(&s["op"]) {
            "node" => {
                let x = GenericNode::new();
                let w = Rc::downgrade(&x);
                let fresh = json!([vector(get_node_potential(&w)), is_locked(&w).ok(), vector(x.borrow().get_flux_discrepancy())]);
                let r = set_node_potential(&w, v());
                nodes.push((Some(x), w));
                json!({"ok": r.is_ok(), "fresh": fresh})
            }
            "set" => json!({"ok": set_node_potential(&nodes[n()].1, v()).is_ok()}),
            "lock" => json!({"ok": lock_node(&nodes[n()].1).is_ok()}),
            "read" => {
                let w = &nodes[n()].1;
                let l = is_locked(w);
                let p = get_node_potential(w);
                json!({"ok": l.is_ok(), "pot": p.is_ok(), "locked": l.ok()})
            }
            "flux" => match els[us(&s["e"]) - 1].1.upgrade() {
                Some(e) => json!({"ok": e.get_flux().is_ok()}),
                None => json!({"gone": true}),
            },
            "hold" => {
                // the pointer stays valid until the node is released
                let p = Rc::into_raw(Rc::clone(nodes[n()].0.as_ref().unwrap()));
                let r: &'static Node = unsafe { &*p };
                held.push((if st(&s["h"]) == "r" { Held::Read(r.borrow()) } else { Held::Write(r.borrow_mut()) }, p));
                json!({"ok": true})
            }
            "release" => {
                for (h, p) in held.drain(..) {
                    drop(h);
                    unsafe { drop(Rc::from_raw(p)) };
                }
                json!({"ok": true})
            }
            "dropnode" => {
                nodes[n()].0 = None;
                json!({"ok": nodes[n()].1.upgrade().is_none()})
            }
            "dropel" => {
                els[us(&s["e"]) - 1].0 = None;
                json!({"ok": true})
            }
            "make" => {
                let (i, o) = (us(&s["e"]["i"]) - 1, us(&s["e"]["o"]) - 1);
                match make(s, Weak::clone(&nodes[i].1), Weak::clone(&nodes[o].1)) {
                    Ok(e) => {
                        let w = Rc::downgrade(&e);
                        els.push((Some(e), w));
                        // a source sets the potential of the node it drives at once
                        let gap = (s["e"]["ty"] == "obs" && s["c"] != "own").then(|| {
                            let (a, b) = (get_node_potential(&nodes[i].1), get_node_potential(&nodes[o].1));
                            vector(a.and_then(|a| Ok(&b? - &a)))
                        });
                        json!({"ok": true, "gap": gap})
                    }
                    Err(_) => json!({"ok": false, "gap": null}),
                }
            }
            "look" => {
                // the nodes driven by an element follow when its flux is calculated
                for _ in 0..els.len() {
                    for e in els.iter().filter_map(|e| e.1.upgrade()) {
                        let _ = e.get_flux();
                    }
                }
                let ns: Vec<Value> = nodes
                    .iter()
                    .map(|(x, w)| match x {
                        None => json!([]),
                        Some(x) => json!([vector(get_node_potential(w)), is_locked(w).ok(), vector(x.borrow().get_flux_discrepancy())]),
                    })
                    .collect();
                let es: Vec<Value> = els
                    .iter()
                    .map(|e| match e.1.upgrade() {
                        None => json!([]),
                        Some(e) => json!([vector(e.get_flux())]),
                    })
                    .collect();
                json!({"nodes": ns, "els": es})
            }
            _ => bad("call"),
        });
    }
    let circle: Vec<Value> = arr(&case["circle"]).iter().map(|e| vector(els[us(e) - 1].1.upgrade().unwrap().get_flux())).collect();
    json!({"steps": out, "circle": circle})
}
