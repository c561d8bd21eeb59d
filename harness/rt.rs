// Runtime of the compiled cases: every case has a `drive(py, &mut Log)`; observations are JSON lines.
pub mod mcrt {
    pub use pyo3::prelude::*;
    use std::io::Write;

    pub struct Log { pub case: String, pub out: std::fs::File, pub buf: Option<String> }

    fn js(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }

    pub fn rt<'py>(py: Python<'py>) -> Bound<'py, PyModule> { py.import_bound("mc_rt").expect("mc_rt") }

    /// Evaluates a Python expression of the harness.
    pub fn ev<'py>(py: Python<'py>, expr: &str) -> Bound<'py, PyAny> {
        rt(py).getattr("ev").unwrap().call1((expr,)).unwrap_or_else(|e| panic!("harness expression {expr}: {e}"))
    }
    pub fn ex(py: Python<'_>, code: &str) {
        rt(py).getattr("ex").unwrap().call1((code,)).unwrap_or_else(|e| panic!("harness statement {code}: {e}"));
    }
    pub fn tup<'py>(py: Python<'py>, expr: &str) -> Bound<'py, pyo3::types::PyTuple> {
        ev(py, expr).downcast_into::<pyo3::types::PyTuple>().unwrap()
    }
    pub fn dict<'py>(py: Python<'py>, expr: &str) -> Bound<'py, pyo3::types::PyDict> {
        ev(py, expr).downcast_into::<pyo3::types::PyDict>().unwrap()
    }

    /// Builds a Rust value from a Python value of the harness, independently of pyo3's own extraction of containers.
    pub trait Mk<'py>: Sized { fn mk(v: &Bound<'py, PyAny>) -> Self; }
    macro_rules! mkext { ($($t:ty),*) => { $(impl<'py> Mk<'py> for $t { fn mk(v: &Bound<'py, PyAny>) -> Self { v.extract().unwrap() } })* } }
    mkext!(bool, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, char, String);
    impl<'py> Mk<'py> for std::path::PathBuf { fn mk(v: &Bound<'py, PyAny>) -> Self { v.str().unwrap().to_string().into() } }
    impl<'py> Mk<'py> for std::net::IpAddr { fn mk(v: &Bound<'py, PyAny>) -> Self { v.str().unwrap().to_string().parse().unwrap() } }
    impl<'py> Mk<'py> for std::net::Ipv4Addr { fn mk(v: &Bound<'py, PyAny>) -> Self { v.str().unwrap().to_string().parse().unwrap() } }
    impl<'py> Mk<'py> for std::net::Ipv6Addr { fn mk(v: &Bound<'py, PyAny>) -> Self { v.str().unwrap().to_string().parse().unwrap() } }
    impl<'py, T: Mk<'py>> Mk<'py> for Option<T> { fn mk(v: &Bound<'py, PyAny>) -> Self { if v.is_none() { None } else { Some(T::mk(v)) } } }
    impl<'py, T: Mk<'py>> Mk<'py> for Vec<T> { fn mk(v: &Bound<'py, PyAny>) -> Self { v.iter().unwrap().map(|x| T::mk(&x.unwrap())).collect() } }
    impl<'py, T: Mk<'py> + std::hash::Hash + Eq, S: std::hash::BuildHasher + Default> Mk<'py> for std::collections::HashSet<T, S> {
        fn mk(v: &Bound<'py, PyAny>) -> Self { v.iter().unwrap().map(|x| T::mk(&x.unwrap())).collect() }
    }
    impl<'py, K: Mk<'py> + std::hash::Hash + Eq, V: Mk<'py>, S: std::hash::BuildHasher + Default> Mk<'py> for std::collections::HashMap<K, V, S> {
        fn mk(v: &Bound<'py, PyAny>) -> Self {
            v.iter().unwrap().map(|k| { let k = k.unwrap(); let x = v.get_item(&k).unwrap(); (K::mk(&k), V::mk(&x)) }).collect()
        }
    }
    impl<'py, T: pyo3::PyTypeInfo> Mk<'py> for Bound<'py, T> { fn mk(v: &Bound<'py, PyAny>) -> Self { v.downcast::<T>().unwrap().clone() } }
    impl<'py, T: pyo3::PyTypeInfo> Mk<'py> for Py<T> { fn mk(v: &Bound<'py, PyAny>) -> Self { v.downcast::<T>().unwrap().clone().unbind() } }
    macro_rules! mktup { ($($t:ident $i:tt),*) => { impl<'py, $($t: Mk<'py>),*> Mk<'py> for ($($t,)*) {
        fn mk(v: &Bound<'py, PyAny>) -> Self { ($($t::mk(&v.get_item($i).unwrap()),)*) } } } }
    mktup!(A 0);
    mktup!(A 0, B 1);
    mktup!(A 0, B 1, C 2);
    mktup!(A 0, B 1, C 2, D 3);
    mktup!(A 0, B 1, C 2, D 3, E 4);
    mktup!(A 0, B 1, C 2, D 3, E 4, F 5);
    mktup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
    mktup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
    mktup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
    mktup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
    mktup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
    mktup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
    pub fn mk<'py, T: Mk<'py>>(v: Bound<'py, PyAny>) -> T { T::mk(&v) }

    impl Log {
        pub fn line(&mut self, label: &str, kind: &str, v: &str) {
            if let Some(b) = self.buf.as_mut() {
                b.push_str(label); b.push('='); b.push_str(kind); b.push(' '); b.push_str(v); b.push('\n');
                return;
            }
            let s = format!("{{\"case\":{},\"label\":{},\"kind\":{},\"v\":{}}}\n", js(&self.case), js(label), js(kind), js(v));
            self.out.write_all(s.as_bytes()).unwrap();
        }
        /// Runs one history; everything recorded in it becomes one observation.
        pub fn history(&mut self, name: &str, mut f: impl FnMut(&mut Log, char)) {
            self.buf = Some(String::new());
            for op in name.chars() { f(self, op); }
            let v = self.buf.take().unwrap();
            self.line(name, "history", &v);
        }
        fn show(&self, py: Python<'_>, o: &Bound<'_, PyAny>) -> String {
            match rt(py).getattr("show").unwrap().call1((o,)) {
                Ok(s) => s.extract::<String>().unwrap(),
                Err(e) => format!("<unshowable {e}>"),
            }
        }
        /// Records the outcome of a call of a generated binding.
        pub fn val<T: ToPyObject>(&mut self, py: Python<'_>, label: &str, r: PyResult<T>) {
            match r {
                Ok(v) => {
                    let o = v.to_object(py).into_bound(py);
                    let s = self.show(py, &o);
                    self.line(label, "ok", &s);
                }
                Err(e) => self.err(py, label, &e),
            }
        }
        /// Records the outcome of a call up to the choice between equivalent Rust representations.
        pub fn loose<T: ToPyObject>(&mut self, py: Python<'_>, label: &str, r: PyResult<T>) {
            match r {
                Ok(v) => { let s = rt(py).getattr("loose").unwrap().call1((v.to_object(py),)).unwrap().extract::<String>().unwrap(); self.line(label, "ok", &s); }
                Err(e) => self.err(py, label, &e),
            }
        }
        /// Records only success, for values that need no conversion.
        pub fn unit<T>(&mut self, py: Python<'_>, label: &str, r: PyResult<T>) -> Option<T> {
            match r {
                Ok(v) => { self.line(label, "ok", "()"); Some(v) }
                Err(e) => { self.err(py, label, &e); None }
            }
        }
        pub fn err(&mut self, py: Python<'_>, label: &str, e: &PyErr) {
            let s = rt(py).getattr("showerr").unwrap().call1((e.value_bound(py),)).unwrap().extract::<String>().unwrap();
            self.line(label, "err", &s);
        }
        /// Records what Python code sees.
        pub fn py(&mut self, py: Python<'_>, label: &str, expr: &str) {
            match rt(py).getattr("ev").unwrap().call1((expr,)) {
                Ok(o) => { let s = self.show(py, &o); self.line(label, "ok", &s); }
                Err(e) => self.err(py, label, &e),
            }
        }
    }

    pub struct Runner { log: Log, skip: std::collections::HashSet<String> }
    impl Runner {
        pub fn new() -> Self {
            pyo3::prepare_freethreaded_python();
            let a: Vec<String> = std::env::args().collect();
            let out = std::fs::OpenOptions::new().append(true).create(true).open(&a[1]).unwrap();
            Runner { log: Log { case: String::new(), out, buf: None }, skip: a[2..].iter().cloned().collect() }
        }
        pub fn case(&mut self, id: &str, f: fn(Python<'_>, &mut Log)) {
            if self.skip.contains(id) { return; }
            self.log.case = id.to_owned();
            self.log.line("", "begin", "");
            let log = &mut self.log;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Python::with_gil(|py| f(py, log))));
            if let Err(e) = r {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if let Some(b) = self.log.buf.take() { self.log.line("", "history", &b); }
                self.log.line("", "panic", &m);
            }
            self.log.line("", "end", "");
        }
        pub fn finish(&mut self) { self.log.case = String::new(); self.log.line("", "finish", ""); }
    }
}
use mcrt::Runner;
