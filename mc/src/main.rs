//! A driver that executes histories of operations on the real `Codegen` (built from /repo's working
//! tree, public API only) and reports what each operation did, one JSON document per line.
//!
//! usage: mc RESULTS < JOBS      (both are JSON lines; results are flushed one by one)
mod ast;

use pyo3::prelude::*;
use quote::ToTokens;
use pyo3_bindgen_engine::{Codegen, Config};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

fn config(v: &Value) -> Config {
    let b = |k: &str, d: bool| v.get(k).and_then(Value::as_bool).unwrap_or(d);
    let mut c = Config::default();
    c.traverse_submodules = b("traverse_submodules", c.traverse_submodules);
    c.generate_preludes = b("generate_preludes", c.generate_preludes);
    c.generate_imports = b("generate_imports", c.generate_imports);
    c.generate_classes = b("generate_classes", c.generate_classes);
    c.generate_type_vars = b("generate_type_vars", c.generate_type_vars);
    c.generate_functions = b("generate_functions", c.generate_functions);
    c.generate_properties = b("generate_properties", c.generate_properties);
    c.generate_docs = b("generate_docs", c.generate_docs);
    c.include_private = b("include_private", c.include_private);
    c.generate_dependencies = b("generate_dependencies", c.generate_dependencies);
    c.suppress_python_stdout = b("suppress_python_stdout", c.suppress_python_stdout);
    c.suppress_python_stderr = b("suppress_python_stderr", c.suppress_python_stderr);
    if let Some(l) = v.get("blocklist_names").and_then(Value::as_array) {
        c.blocklist_names = l.iter().map(|s| s.as_str().unwrap().to_owned()).collect();
    }
    c
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn s<'a>(op: &'a Value, k: &str) -> &'a str {
    op.get(k).and_then(Value::as_str).unwrap_or_else(|| panic!("driver: op without {k}: {op}"))
}

fn err_kind(e: &pyo3_bindgen_engine::PyBindgenError) -> String {
    let d = format!("{e:?}");
    d.split(['(', ' ', '{']).next().unwrap_or("").to_owned()
}

/// What the caller of the library learns about a failure. With "keep_err" the Python exception it carries is
/// left in `sys.mc_err` for the harness.
fn failure(e: pyo3_bindgen_engine::PyBindgenError, op: &Value) -> Value {
    let out = json!({"err": err_kind(&e), "msg": e.to_string()});
    if op.get("keep_err").is_some() {
        Python::with_gil(|py| {
            let sys = py.import_bound("sys").unwrap();
            let value = match &e {
                pyo3_bindgen_engine::PyBindgenError::PyError(e) => e.value_bound(py).clone().into_any(),
                _ => py.None().into_bound(py),
            };
            sys.setattr("mc_err", value).unwrap();
        });
    }
    out
}

/// Runs one operation. `Ok(value)`/`Err(value)` are both reports; panics are caught by the caller.
fn step(cg: &mut Option<Codegen>, saved: &mut Vec<Codegen>, op: &Value) -> Value {
    type R = Result<Codegen, pyo3_bindgen_engine::PyBindgenError>;
    let finish = |cg: &mut Option<Codegen>, r: R| match r {
        Ok(c) => {
            *cg = Some(c);
            json!({"ok": true})
        }
        Err(e) => failure(e, op),
    };
    let name = s(op, "op");
    match name {
        "py" => {
            // Executes harness Python code; `out` is read back as a string (JSON by convention).
            return Python::with_gil(|py| {
                let g = pyo3::types::PyDict::new_bound(py);
                let r = (|| -> PyResult<String> {
                    g.set_item("__builtins__", py.import_bound("builtins")?)?;
                    g.set_item("__name__", "__mc__")?;
                    py.run_bound(s(op, "code"), Some(&g), Some(&g))?;
                    match g.get_item("out")? {
                        Some(o) => Ok(o.str()?.to_string()),
                        None => Ok(String::new()),
                    }
                })();
                match r {
                    Ok(o) => json!({"ok": true, "out": o}),
                    Err(e) => json!({"pyerr": e.to_string()}),
                }
            });
        }
        "new" => {
            *cg = Some(match op.get("cfg") {
                Some(c) => Codegen::new(config(c)),
                None => Codegen::default(),
            });
            return json!({"ok": true});
        }
        "save" => {
            if let Some(c) = cg {
                saved.push(c.clone());
            }
            return json!({"ok": true});
        }
        "restore" => {
            *cg = saved.last().cloned();
            return json!({"ok": true});
        }
        "canon" => {
            // The tokens of a piece of Rust text, as written and as formatted by prettyplease
            let path = s(op, "path");
            let Ok(text) = std::fs::read_to_string(path) else {
                return json!({"err": "Read"});
            };
            return canon(&text);
        }
        _ => {}
    }
    let Some(cur) = cg.take() else {
        return json!({"skipped": true});
    };
    match name {
        "module_name" => finish(cg, cur.module_name(s(op, "name"))),
        "module_names" => {
            let names: Vec<&str> =
                op["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            finish(cg, cur.module_names(names))
        }
        "module_from_str" => finish(cg, cur.module_from_str(s(op, "src"), s(op, "name"))),
        "module" | "modules" => {
            let names: Vec<&str> = match op.get("names") {
                Some(n) => n.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect(),
                None => vec![s(op, "name")],
            };
            let r = Python::with_gil(|py| {
                let mut ms = Vec::new();
                for n in &names {
                    match py.import_bound(*n) {
                        Ok(m) => ms.push(m),
                        Err(e) => return Err(pyo3_bindgen_engine::PyBindgenError::from(e)),
                    }
                }
                if name == "module" {
                    cur.module(&ms[0])
                } else {
                    cur.modules(ms)
                }
            });
            finish(cg, r)
        }
        "generate" => {
            if op.get("keep").and_then(Value::as_bool).unwrap_or(false) {
                *cg = Some(cur.clone());
            }
            match cur.generate() {
                Ok(ts) => {
                    let mut out = json!({"ok": true});
                    let text = ts.to_string();
                    match syn::parse_file(&text) {
                        Ok(f) => {
                            if op.get("ast").and_then(Value::as_bool).unwrap_or(true) {
                                out["ast"] = Value::Array(ast::items(&f.items));
                            }
                            if op.get("pretty").and_then(Value::as_bool).unwrap_or(false) {
                                out["pretty"] = json!(prettyplease::unparse(&f));
                            }
                            if op.get("pretty_ast").and_then(Value::as_bool).unwrap_or(false) {
                                // what the command line tool prints, read back
                                match syn::parse_file(&prettyplease::unparse(&f)) {
                                    Ok(f) => out["pretty_ast"] = Value::Array(ast::items(&f.items)),
                                    Err(e) => out["pretty_err"] = json!(e.to_string()),
                                }
                            }
                        }
                        Err(e) => out["unparsable"] = json!(e.to_string()),
                    }
                    if let Some(p) = op.get("write").and_then(Value::as_str) {
                        let body = match syn::parse_file(&text) {
                            Ok(f) => prettyplease::unparse(&f),
                            Err(_) => text.clone(),
                        };
                        std::fs::write(p, body).expect("driver: cannot write bindings");
                    }
                    if op.get("text").and_then(Value::as_bool).unwrap_or(false) {
                        out["text"] = json!(text);
                    }
                    out
                }
                Err(e) => failure(e, op),
            }
        }
        "build" => match cur.build(s(op, "path")) {
            Ok(()) => json!({"ok": true}),
            Err(e) => failure(e, op),
        },
        other => panic!("driver: unknown op {other}"),
    }
}

fn canon(text: &str) -> Value {
    match syn::parse_file(text) {
        Ok(f) => {
            let plain = f.to_token_stream().to_string();
            let pretty = match syn::parse_file(&prettyplease::unparse(&f)) {
                Ok(f) => f.to_token_stream().to_string(),
                Err(e) => return json!({"unparsable": e.to_string()}),
            };
            json!({"ok": true, "plain": plain, "pretty": pretty})
        }
        Err(e) => json!({"unparsable": e.to_string()}),
    }
}

fn run_ops(ops: &[Value]) -> Vec<Value> {
    let mut cg: Option<Codegen> = None;
    let mut saved = Vec::new();
    let mut results = Vec::new();
    for op in ops {
        let r = catch_unwind(AssertUnwindSafe(|| step(&mut cg, &mut saved, op)));
        results.push(match r {
            Ok(v) => v,
            Err(_) => {
                cg = None;
                json!({"panic": PANIC.with(|p| p.borrow().clone())})
            }
        });
    }
    results
}

fn run_job(job: &Value) -> Value {
    let mut res = json!({"id": job["id"]});
    if let Some(ths) = job.get("threads").and_then(Value::as_array) {
        // Concurrent histories: `pre` runs first, then all thread histories at once, then `post`.
        // The interleaving is controlled by the Python side of the harness (see sched.py).
        let pre: Vec<Value> = job.get("pre").and_then(Value::as_array).cloned().unwrap_or_default();
        let post: Vec<Value> = job.get("post").and_then(Value::as_array).cloned().unwrap_or_default();
        res["pre"] = Value::Array(run_ops(&pre));
        let out: Arc<Mutex<Vec<(usize, Vec<Value>)>>> = Arc::default();
        let hs: Vec<_> = ths
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let ops: Vec<Value> = t.as_array().unwrap().clone();
                let out = out.clone();
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        let r = run_ops(&ops);
                        out.lock().unwrap().push((i, r));
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        let mut o = std::mem::take(&mut *out.lock().unwrap());
        o.sort_by_key(|x| x.0);
        res["threads"] = Value::Array(o.into_iter().map(|x| Value::Array(x.1)).collect());
        res["post"] = Value::Array(run_ops(&post));
    } else {
        let ops: Vec<Value> = job["ops"].as_array().unwrap().clone();
        res["res"] = Value::Array(run_ops(&ops));
    }
    res
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let path = std::env::args().nth(1).expect("usage: mc RESULTS < JOBS");
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(path).unwrap();
    pyo3::prepare_freethreaded_python();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let job: Value = serde_json::from_str(&line).unwrap();
        writeln!(out, "{}", json!({"begin": job["id"]})).unwrap();
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || run_job(&job))
            .unwrap();
        let r = h.join().unwrap_or_else(|_| json!({"driver_panic": true}));
        writeln!(out, "{r}").unwrap();
        out.flush().unwrap();
    }
}
