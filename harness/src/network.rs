//! Neapolitan models and studies.
use crate::util::*;
use neapolitan::modelling::NodalAnalysisModel;
use neapolitan::{NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::str::FromStr;

fn floats(v: &Value) -> Vec<f64> {
    arr(v).iter().map(f).collect()
}

fn study(b: NodalAnalysisStudyBuilder, case: &Value) -> Value {
    match b.run_study(f(&case["margin"]), us(&case["limit"])) {
        Ok(r) => json!({ "ok": serde_json::to_value(&r).unwrap() }),
        Err(e) => json!({ "err": e.to_string() }),
    }
}

/// One study built with the calls of a user
pub fn network(case: &Value) -> Value {
    let mut b = match NodalAnalysisStudyBuilder::new(st(&case["study"]).to_string(), None) {
        Ok(b) => b.add_nodes(us(&case["n"])),
        Err(e) => return json!({ "err": e.to_string() }),
    };
    for c in arr(&case["nodes"]) {
        b = b.configure_node(us(&c[0]), floats(&c[1]), c[2].as_bool().unwrap(), None);
    }
    for e in arr(&case["els"]) {
        b = match b.add_element(st(&e[0]), us(&e[1]), us(&e[2]), floats(&e[3])) {
            Ok(b) => b,
            Err(e) => return json!({ "err": e.to_string() }),
        };
    }
    study(b, case)
}

/// An element of our own: a set flux with two components
fn inflow(
    i: std::rc::Weak<std::cell::RefCell<neapolitan::modelling::GenericNode>>,
    o: std::rc::Weak<std::cell::RefCell<neapolitan::modelling::GenericNode>>,
    gain: Vec<f64>,
) -> anyhow::Result<std::rc::Rc<neapolitan::modelling::GenericElement>> {
    anyhow::ensure!(gain.len() == 2, "two gains");
    neapolitan::modelling::GenericElement::try_new(gain, i, o, neapolitan::flux_formulas::constant_flux, false, true, true)
}

fn own_config() -> HashMap<String, NodalAnalysisStudyConfigurator> {
    use neapolitan::dc_circuits::{current_source, resistor, voltage_source};
    HashMap::from([
        ("mine".to_string(), NodalAnalysisStudyConfigurator::new(1).add_element_type("wire", resistor).unwrap().add_element_type("pump", voltage_source).unwrap()),
        ("plane".to_string(), NodalAnalysisStudyConfigurator::new(2).add_element_type("wire", resistor).unwrap().add_element_type("inflow", inflow).unwrap()
            .add_element_type("lift", voltage_source).unwrap().add_element_type("spring", current_source).unwrap()),
    ])
}

const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];

fn load(text: &str) -> (Option<NodalAnalysisModel>, bool) {
    let a = NodalAnalysisModel::from_str(text).ok();
    let b = serde_json::from_str::<NodalAnalysisModel>(text).ok();
    let same = a == b;
    (a, same)
}

/// The calls of a user who builds, saves, loads and runs models
pub fn model(case: &Value) -> Value {
    let mut b: Option<NodalAnalysisStudyBuilder> = None;
    let mut own = false;
    let mut out = vec![];
    for s in arr(&case["steps"]) {
        let op = st(&s["op"]);
        let cur = b.clone();
        if cur.is_none() && op != "new" && op != "types" {
            out.push(json!({"missing": true}));
            break;
        }
        out.push(match op {
            "new" => {
                let mine = st(&s["cfg"]) == "own";
                match NodalAnalysisStudyBuilder::new(st(&s["study"]).to_string(), if mine { Some(own_config()) } else { None }) {
                    Ok(x) => {
                        own = mine;
                        b = Some(x);
                        json!({"ok": true})
                    }
                    Err(_) => json!({"ok": false}),
                }
            }
            "nodes" => {
                b = cur.map(|x| x.add_nodes(us(&s["k"])));
                json!({"ok": true})
            }
            "conf" => {
                let meta = if s["meta"].is_null() { None } else { Some(num_map(&s["meta"])) };
                b = cur.map(|x| x.configure_node(us(&s["i"]), floats(&s["pot"]), s["lock"].as_bool().unwrap(), meta));
                json!({"ok": true})
            }
            "elem" => match cur.unwrap().add_element(st(&s["type"]), us(&s["in"]), us(&s["out"]), floats(&s["gain"])) {
                Ok(x) => {
                    b = Some(x);
                    json!({"ok": true})
                }
                Err(_) => json!({"ok": false}),
            },
            "save" => {
                let mut text = st(&s["into"]).to_string();
                match cur.clone().unwrap().save_model(&mut text) {
                    Ok(after) => {
                        let unchanged = cur == Some(after);
                        let (loaded, same) = load(&text);
                        let mut again = String::new();
                        let mut equal = false;
                        if let Some(m) = loaded {
                            let x = NodalAnalysisStudyBuilder::from_model_with_default_config(m);
                            // the configuration of a loaded model is the default one
                            equal = own || cur == Some(x.clone());
                            let _ = x.save_model(&mut again);
                        }
                        json!({"ok": true, "unchanged": unchanged, "loaders_agree": same, "equal": equal, "text": text, "again": again})
                    }
                    Err(_) => json!({"ok": false}),
                }
            }
            "load" => {
                let (m, same) = load(st(&s["text"]));
                match m {
                    None => json!({"ok": false, "loaders_agree": same}),
                    Some(m) => {
                        let x = NodalAnalysisStudyBuilder::from_model_with_default_config(m);
                        let eq = cur == Some(x.clone());
                        let mut again = String::new();
                        let _ = x.clone().save_model(&mut again);
                        own = false;
                        b = Some(x);
                        json!({"ok": true, "loaders_agree": same, "equal": eq, "again": again})
                    }
                }
            }
            "run" => {
                let x = cur.unwrap();
                let direct = study(x.clone(), case);
                let mut text = String::new();
                let again = match x.save_model(&mut text) {
                    Ok(_) if !own => match load(&text).0 {
                        Some(m) => study(NodalAnalysisStudyBuilder::from_model_with_default_config(m), case),
                        None => json!({"err": "does not load"}),
                    },
                    _ => json!(null),
                };
                json!({"direct": direct, "loaded": again})
            }
            "types" => {
                let mut c = Some(NodalAnalysisStudyConfigurator::new(1));
                let mut refused = 0;
                for (k, n) in arr(&s["names"]).iter().enumerate() {
                    let name = NAMES.iter().find(|x| **x == st(n)).unwrap_or_else(|| bad("name"));
                    match c.take().unwrap().add_element_type(name, inflow) {
                        Ok(x) => c = Some(x),
                        Err(_) => {
                            refused = k + 1;
                            break;
                        }
                    }
                }
                json!({"ok": true, "refused": refused})
            }
            _ => bad("call"),
        });
    }
    json!({ "steps": out })
}
