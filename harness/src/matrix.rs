use crate::util::*;
use gmatlib::{col_vec, row_vec, Element, Matrix};
use serde_json::{json, Value};
use std::collections::BTreeMap;

type Regs<T> = BTreeMap<String, Matrix<T>>;

trait Num: Element<Self> + std::iter::Sum + 'static {
    fn of(x: i64) -> Self;
    fn back(self) -> Value;
}
macro_rules! num_impl {
    ($($t:ty),*) => { $(impl Num for $t {
        fn of(x: i64) -> Self { x as $t }
        fn back(self) -> Value { let y = self as f64; if y == y.trunc() && y.abs() < 1e15 { json!(y as i64) } else { num(y) } }
    })* };
}
num_impl!(f64, f32, i8, i16, i32, i64);

/// Ok(None): the named register changed; Ok(Some): a value
enum Out<T: Element<T>> {
    Made(Matrix<T>),
    Done,
    Val(Value),
}

fn apply<T: Num>(regs: &mut Regs<T>, o: &Value) -> anyhow::Result<Out<T>>
where
    T: Element<T>,
{
    use Out::*;
    let (a, b, s) = (st(&o["a"]), st(&o["b"]), us(&o["s"]));
    let x: Vec<i64> = arr(&o["x"]).iter().map(|v| v.as_i64().unwrap()).collect();
    let vals: Vec<T> = arr(&o["vals"]).iter().map(|v| T::of(v.as_i64().unwrap())).collect();
    let u = |i: usize| x[i] as usize;
    let ra = || regs[a].clone();
    let rb = || regs[b].clone();
    Ok(match st(&o["op"]) {
        "new" => Made(Matrix::new(u(0), u(1))),
        "identity" => Made(Matrix::new_identity(u(0))),
        "from_vec" => Made(Matrix::from_vec(u(0), vals)?),
        "from_row_vec" => Made(match (&vals[..], s) {
            ([p], 1 | 2) => row_vec![*p],
            ([p, q], 1 | 2) => row_vec![*p, *q],
            ([p, q, r], 1 | 2) => row_vec![*p, *q, *r],
            _ => Matrix::from_row_vec(vals),
        }),
        "from_col_vec" => Made(match (&vals[..], s) {
            ([p], 1 | 2) => col_vec![*p],
            ([p, q], 1 | 2) => col_vec![*p, *q],
            ([p, q, r], 1 | 2) => col_vec![*p, *q, *r],
            _ => Matrix::from_col_vec(vals),
        }),
        "clone" => Made(ra()),
        "transpose" => Made(regs[a].transpose()),
        "multiply" => Made(match s {
            1 => regs[a].multiply_matrix(&regs[b])?,
            2 => ra() * rb(),
            3 => &regs[a] * &regs[b],
            _ => if x.len() % 2 == 0 && a < b { ra() * &regs[b] } else { &regs[a] * rb() },
        }),
        "augment" => Made(if s > 2 { regs[a].augment_with(&regs[b])? } else { &regs[a] | &regs[b] }),
        "subset" => Made(regs[a].subset(u(0), u(1), u(2), u(3))),
        "add" => Made(match s {
            1 => ra() + rb(),
            2 => &regs[a] + rb(),
            3 => ra() + &regs[b],
            _ => &regs[a] + &regs[b],
        }),
        "sub" => Made(match s {
            1 => ra() - rb(),
            2 => &regs[a] - rb(),
            3 => ra() - &regs[b],
            _ => &regs[a] - &regs[b],
        }),
        "mul_scalar" => Made(if s > 2 { ra() * T::of(x[0]) } else { &regs[a] * T::of(x[0]) }),
        "get" => Val(regs[a][(u(0), u(1))].back()),
        "trace" => Val(regs[a].trace()?.back()),
        "equal" => Val(json!(if s > 2 { (regs[a] == regs[b]) as i32 } else { !(regs[a] != regs[b]) as i32 })),
        op => {
            let other = rb();
            let m = regs.get_mut(a).unwrap();
            match op {
                "add_assign" => *m += other,
                "sub_assign" => *m -= other,
                "scale" => m.inplace_scale(T::of(x[0])),
                "swap" => m.inplace_row_swap(u(0), u(1)),
                "row_scale" => m.inplace_row_scale(u(0), T::of(x[1])),
                "row_add" => m.inplace_row_add(u(0), u(1)),
                "scaled_row_add" => m.inplace_scaled_row_add(u(0), u(1), T::of(x[2])),
                "set" => m[(u(0), u(1))] = T::of(x[2]),
                _ => bad("matrix operation"),
            }
            Done
        }
    })
}

fn dump<T: Num>(m: &Matrix<T>) -> Value
where
    T: Element<T>,
{
    let (r, c) = (m.get_rows(), m.get_cols());
    let it: Vec<Value> = m.iter().map(|x| x.back()).collect();
    let vec: Vec<T> = m.clone().into();
    let by_index: Vec<Value> = if it.len() == r * c {
        (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|ij| m[ij].back()).collect()
    } else {
        vec![json!("wrong number of elements")]
    };
    let same = vec.iter().map(|x| x.back()).collect::<Vec<_>>() == it && by_index == it;
    let text = if r * c > 0 { json!(m.to_string()) } else { json!(null) };
    json!({"r": r, "c": c, "v": it, "same": same, "text": text})
}

fn run<T: Num>(case: &Value) -> Value
where
    T: Element<T>,
{
    let mut regs: Regs<T> = arr(&case["regs"]).iter().map(|n| (st(n).to_string(), Matrix::new(0, 0))).collect();
    let mut out = vec![];
    for o in arr(&case["calls"]) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply(&mut regs, o)));
        out.push(match r {
            Err(p) => json!({"ok": false, "how": "panic", "text": panic_text(&p)}),
            Ok(Err(e)) => json!({"ok": false, "how": "err", "text": e.to_string()}),
            Ok(Ok(Out::Val(v))) => json!({"ok": true, "val": v}),
            Ok(Ok(Out::Done)) => json!({"ok": true}),
            Ok(Ok(Out::Made(m))) => {
                regs.insert(st(&o["d"]).to_string(), m);
                json!({"ok": true})
            }
        });
        let d: serde_json::Map<String, Value> = regs.iter().map(|(k, m)| (k.clone(), dump(m))).collect();
        out.last_mut().unwrap()["regs"] = Value::Object(d);
    }
    json!({ "steps": out })
}

/// Runs a list of matrix operations on registers and shows all of them after each
pub fn matrix(case: &Value) -> Value {
    match st(&case["type"]) {
        "f64" => run::<f64>(case),
        "f32" => run::<f32>(case),
        "i8" => run::<i8>(case),
        "i16" => run::<i16>(case),
        "i32" => run::<i32>(case),
        "i64" => run::<i64>(case),
        _ => bad("element type"),
    }
}

/// Inverts matrices of f64 (or f32)
pub fn invert(case: &Value) -> Value {
    let vals: Vec<f64> = arr(&case["v"]).iter().map(f).collect();
    let (r, c) = (us(&case["r"]), us(&case["c"]));
    if case["type"].as_str() == Some("f32") {
        let mut m: Matrix<f32> = Matrix::new(r, c);
        for (k, x) in vals.iter().enumerate() {
            m[(k / c, k % c)] = *x as f32;
        }
        let res = m.try_inplace_invert();
        let v: Vec<Value> = m.iter().map(|x| num(*x as f64)).collect();
        return json!({"ok": res.is_ok(), "r": m.get_rows(), "c": m.get_cols(), "v": v});
    }
    let mut m: Matrix<f64> = Matrix::new(r, c);
    for (k, x) in vals.iter().enumerate() {
        m[(k / c, k % c)] = *x;
    }
    let res = m.try_inplace_invert();
    let v: Vec<Value> = m.iter().map(|x| num(*x)).collect();
    json!({"ok": res.is_ok(), "r": m.get_rows(), "c": m.get_cols(), "v": v})
}
