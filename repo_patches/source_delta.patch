From 18b1489f684d149bb87b1ac08a38706f67cc4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 01/57] fix: keep parameters named _ in generated bindings

Dropping them shifted the remaining positional arguments (or made the call
impossible), so the Python function received the wrong arguments.
---
 pyo3_bindgen_engine/src/syntax/function.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index bf046c3..c2275e0 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -102,9 +102,6 @@ impl Function {
                 })
                 .collect::<Result<Vec<_>>>()?;
 
-            // Retain only used parameters (discard unused `_` parameters)
-            parameters.retain(|param| param.name.as_rs() != "r#_");
-
             // Extract the return annotation of the function
             let return_annotation = {
                 let return_annotation =
-- 
2.43.0


From 035cebf1fb7ee36061b388dcafb66c9d7b332a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 02/57] fix: recognise functools.partial objects as functions

---
 .../src/syntax/common/attribute_variant.rs                | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index 80317fb..19e1457 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -27,7 +27,13 @@ impl AttributeVariant {
         let inspect = py.import_bound("inspect")?;
 
         // Get the name and module of the attribute type
-        let attr_type_name = Ident::from_py(&attr_type.name().unwrap_or_default());
+        // Note: `PyType::name()` is fully qualified for types implemented in C, e.g. "functools.partial"
+        let attr_type_name = Ident::from_py(
+            &attr_type
+                .getattr(pyo3::intern!(py, "__name__"))
+                .map(|a| a.to_string())
+                .unwrap_or_default(),
+        );
         let attr_type_module = Path::from_py(
             &attr_type
                 .getattr(pyo3::intern!(py, "__module__"))
-- 
2.43.0


From 9475e7ae0ff947a2c64a5f51af95d753acb4e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 03/57] fix: keep *args of methods that take the instance
 through it, call argument-less methods on their class

---
 pyo3_bindgen_engine/src/syntax/function.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index c2275e0..171336f 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -228,8 +228,8 @@ impl Function {
             // Hack: Reassign InstanceMethod with no parameter to StaticMethod
             // This should not be necessary as every InstanceMethod should have at least one parameter (self), but it does for certain complex Python modules
             if let FunctionType::Method {
+                class_path,
                 typ: MethodType::InstanceMethod,
-                ..
             } = &typ
             {
                 if parameters.is_empty() {
@@ -237,19 +237,27 @@ impl Function {
                             "WARN: Method '{name}' is marked as an instance method, but has no parameters. Changed to static method.",
                         );
                     typ = FunctionType::Method {
-                        class_path: name.clone(),
+                        class_path: class_path.clone(),
                         typ: MethodType::StaticMethod,
                     };
                 }
             };
 
-            // Skip the first parameter if it's an instance method (or `__init__`/`__call__`)
+            // Skip the first parameter if it's an instance method (or `__init__`/`__call__`), unless the instance is a part of `*args`
             if let FunctionType::Method {
                 typ: MethodType::InstanceMethod | MethodType::Constructor | MethodType::Callable,
                 ..
             } = typ
             {
-                parameters.remove(0);
+                if parameters.first().is_some_and(|param| {
+                    [
+                        ParameterKind::PositionalOnly,
+                        ParameterKind::PositionalOrKeyword,
+                    ]
+                    .contains(&param.kind)
+                }) {
+                    parameters.remove(0);
+                }
             };
 
             // If any of the parameters is still called 'self', do not handle the parameters
-- 
2.43.0


From aea592a492c4388976bef01b32d0036bd52fd061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 04/57] fix: bind class members as the class dictionary says
 instead of by the name of the first parameter

---
 pyo3_bindgen_engine/src/syntax/function.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 171336f..b1ab90e 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -114,6 +114,7 @@ impl Function {
             };
 
             // If marked as an unknown method, try to infer the method type
+            let mut is_method_type_known = false;
             match &typ {
                 FunctionType::Method {
                     class_path,
@@ -148,13 +149,19 @@ impl Function {
                         {
                             MethodType::ClassMethod
                         } else if py
-                            .eval_bound("isinstance(obj, staticmethod)", None, Some(&locals))?
+                            .eval_bound(
+                                // Objects that are not descriptors (e.g. builtin functions) are not bound to the instance
+                                "isinstance(obj, staticmethod) or not hasattr(type(obj), '__get__')",
+                                None,
+                                Some(&locals),
+                            )?
                             .is_truthy()?
                         {
                             MethodType::StaticMethod
                         } else {
                             MethodType::InstanceMethod
                         };
+                        is_method_type_known = true;
                         typ = FunctionType::Method {
                             class_path: class_path.clone(),
                             typ: method_type,
@@ -178,7 +185,7 @@ impl Function {
                     typ: MethodType::InstanceMethod | MethodType::Constructor | MethodType::Callable,
                     ..
                 } => {}
-                FunctionType::Method { class_path, typ: _ } => {
+                FunctionType::Method { class_path, typ: _ } if !is_method_type_known => {
                     if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
                         typ = FunctionType::Method {
                             class_path: class_path.clone(),
@@ -186,6 +193,7 @@ impl Function {
                         };
                     }
                 }
+                FunctionType::Method { .. } => {}
                 FunctionType::Function | FunctionType::Closure => {
                     if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
                         if [
-- 
2.43.0


From 5ed1c09015971bc8a7e58cd30f96faf34bb189d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 05/57] fix: always restore suppressed Python streams and
 accept what is printed to them

---
 pyo3_bindgen_engine/src/utils/io.rs | 102 +++++++++++++++++++++-------
 1 file changed, 79 insertions(+), 23 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index a00b1b4..109433e 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -1,5 +1,6 @@
 use crate::Result;
-use pyo3::prelude::*;
+use pyo3::{prelude::*, sync::GILProtected};
+use std::cell::RefCell;
 
 pub fn with_suppressed_python_output<T>(
     py: pyo3::Python,
@@ -7,38 +8,93 @@ pub fn with_suppressed_python_output<T>(
     suppress_stderr: bool,
     f: impl FnOnce() -> Result<T>,
 ) -> Result<T> {
-    // If both stdout and stderr are suppressed, there's no need to do anything
+    // If neither stdout nor stderr are suppressed, there's no need to do anything
     if !suppress_stdout && !suppress_stderr {
         return f();
     }
 
+    // Suppress the output (restored once the guards are dropped, which includes errors and panics)
     let sys = py.import_bound(pyo3::intern!(py, "sys"))?;
-    let stdout_ident = pyo3::intern!(py, "stdout");
-    let stderr_ident = pyo3::intern!(py, "stderr");
+    let _stdout_guard = suppress_stdout
+        .then(|| SuppressedStream::new(&sys, &STDOUT))
+        .transpose()?;
+    let _stderr_guard = suppress_stderr
+        .then(|| SuppressedStream::new(&sys, &STDERR))
+        .transpose()?;
 
-    // Record the original stdout and stderr
-    let original_stdout = sys.getattr(stdout_ident)?;
-    let original_stderr = sys.getattr(stderr_ident)?;
+    // Run the function
+    f()
+}
 
-    // Suppress the output
-    let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
-    if suppress_stdout {
-        sys.setattr(stdout_ident, &supressed_output)?;
-    }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, &supressed_output)?;
-    }
+static STDOUT: Stream = Stream::new("stdout");
+static STDERR: Stream = Stream::new("stderr");
 
-    // Run the function
-    let ret = f()?;
+/// Stream of the `sys` module with the number of its current suppressions. These can overlap in any order
+/// because Python switches between threads while the suppressed functions run. Therefore, only the first
+/// suppression replaces the stream and only the last one restores it.
+struct Stream {
+    name: &'static str,
+    state: GILProtected<RefCell<(usize, Option<PyObject>)>>,
+}
 
-    // Restore the original stdout and stderr
-    if suppress_stdout {
-        sys.setattr(stdout_ident, original_stdout)?;
+impl Stream {
+    const fn new(name: &'static str) -> Self {
+        Self {
+            name,
+            state: GILProtected::new(RefCell::new((0, None))),
+        }
     }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, original_stderr)?;
+}
+
+/// Guard that suppresses the output of a stream until it is dropped.
+struct SuppressedStream<'a, 'py> {
+    sys: &'a Bound<'py, PyModule>,
+    stream: &'static Stream,
+}
+
+impl<'a, 'py> SuppressedStream<'a, 'py> {
+    fn new(sys: &'a Bound<'py, PyModule>, stream: &'static Stream) -> Result<Self> {
+        let py = sys.py();
+
+        // Text stream that accepts all output and discards it
+        let suppressed_output = py.eval_bound(
+            "(lambda io: io.TextIOWrapper(io.BufferedWriter(type('SuppressedOutput', (io.RawIOBase,), \
+                {'writable': lambda self: True, 'write': lambda self, x: len(x)})()), 'utf-8', 'backslashreplace')\
+            )(__import__('io'))",
+            None,
+            None,
+        )?;
+
+        // Note: The thread cannot be switched below, because no Python code is executed
+        let is_first = {
+            let mut state = stream.state.get(py).borrow_mut();
+            state.0 += 1;
+            state.0 == 1
+        };
+        let guard = Self { sys, stream };
+        if is_first {
+            let original = sys.getattr(stream.name)?.unbind();
+            sys.setattr(stream.name, suppressed_output)?;
+            stream.state.get(py).borrow_mut().1 = Some(original);
+        }
+        Ok(guard)
     }
+}
 
-    Ok(ret)
+impl Drop for SuppressedStream<'_, '_> {
+    fn drop(&mut self) {
+        let original = {
+            let mut state = self.stream.state.get(self.sys.py()).borrow_mut();
+            state.0 -= 1;
+            if state.0 == 0 {
+                state.1.take()
+            } else {
+                None
+            }
+        };
+        if let Some(original) = original {
+            // Note: Restoring an attribute of `sys` cannot fail
+            let _ = self.sys.setattr(self.stream.name, original);
+        }
+    }
 }
-- 
2.43.0


From 4161b71de8b4f1a3d39e1ddba3b95c412abf5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 06/57] fix: suppress the output of Python modules also while
 they are imported

---
 pyo3_bindgen_engine/src/codegen.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 32bf8e0..712e9b9 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -78,7 +78,12 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = py.import_bound(module_name)?;
+            let module = crate::io_utils::with_suppressed_python_output(
+                py,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || Ok(py.import_bound(module_name)?),
+            )?;
             self.module(&module)
         })
     }
@@ -99,11 +104,18 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = pyo3::types::PyModule::from_code_bound(
+            let module = crate::io_utils::with_suppressed_python_output(
                 py,
-                source_code,
-                &format!("{module_name}/__init__.py"),
-                module_name,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || {
+                    Ok(pyo3::types::PyModule::from_code_bound(
+                        py,
+                        source_code,
+                        &format!("{module_name}/__init__.py"),
+                        module_name,
+                    )?)
+                },
             )?;
             self.module(&module)
         })
-- 
2.43.0


From c2f0445d4b58acfd72e025b9ec2491e79c98e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 07/57] fix: read __all__ without adding it to modules that
 have none

---
 pyo3_bindgen_engine/src/syntax/module.rs | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 31fc78e..0c07154 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -564,15 +564,22 @@ impl Module {
         module_name: &Path,
     ) -> Vec<Ident> {
         // Extract the index (__all__) of the module if it exists
-        let mut index_attr_names = if let Ok(index) = module.index() {
-            index
-                .iter()
-                .map(|x| Ident::from_py(&x.to_string()))
-                .unique()
-                .collect()
-        } else {
-            Vec::default()
-        };
+        // Note: `PyModule::index()` cannot be used because it adds an empty `__all__` to modules that have none
+        let mut index_attr_names = module
+            .getattr(pyo3::intern!(module.py(), "__all__"))
+            .and_then(|index| {
+                index
+                    .downcast::<pyo3::types::PySequence>()?
+                    .iter()?
+                    .map(|x| Ok(x?.extract::<String>().unwrap_or_default()))
+                    .collect::<PyResult<Vec<_>>>()
+            })
+            .unwrap_or_default()
+            .into_iter()
+            .filter(|x| !x.is_empty())
+            .map(|x| Ident::from_py(&x))
+            .unique()
+            .collect_vec();
 
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
-- 
2.43.0


From 9b490519658ae8b733b54124bc769d75c584541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 08/57] fix: do not panic if __dir__ of a module or class
 cannot be used

---
 pyo3_bindgen_engine/src/syntax/class.rs  |  9 ++------
 pyo3_bindgen_engine/src/syntax/module.rs | 16 +++++----------
 pyo3_bindgen_engine/src/utils/attr.rs    | 26 ++++++++++++++++++++++++
 pyo3_bindgen_engine/src/utils/mod.rs     |  1 +
 4 files changed, 34 insertions(+), 18 deletions(-)
 create mode 100644 pyo3_bindgen_engine/src/utils/attr.rs

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e54f538..96b3b76 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -3,7 +3,6 @@ use super::{
     Property, PropertyOwner, TraitMethod,
 };
 use crate::{Config, Result};
-use itertools::Itertools;
 use pyo3::prelude::*;
 use rustc_hash::FxHashMap as HashMap;
 
@@ -30,12 +29,8 @@ impl Class {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        class
-            .dir()
-            .iter()
-            // Convert each attribute name to an identifier
-            .map(|attr_name| Ident::from_py(&attr_name.to_string()))
-            .unique()
+        crate::utils::attr::list_attr_names(class)?
+            .into_iter()
             // TODO: Try to first access the attribute via __dict__ because Python's descriptor protocol might change the attributes obtained via getattr()
             //       - For example, classmethod and staticmethod are converted to method/function
             //       - However, this might also change some of the parsing and it would need to be fixed
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 0c07154..86d5d52 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -83,13 +83,8 @@ impl Module {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        module
-            .dir()
-            .iter()
-            // Convert each attribute name to an identifier
-            .map(|attr_name| Ident::from_py(&attr_name.to_string()))
-            // Remove duplicates
-            .unique()
+        crate::utils::attr::list_attr_names(module)?
+            .into_iter()
             // TODO: Try to first access the attribute via __dict__ because Python's descriptor protocol might change the attributes obtained via getattr()
             //       - For example, classmethod and staticmethod are converted to method/function
             //       - However, this might also change some of the parsing and it would need to be fixed
@@ -584,10 +579,9 @@ impl Module {
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
         {
-            let public_attr_names_set: HashSet<_> = module
-                .dir()
-                .iter()
-                .map(|attr_name| Ident::from_py(&attr_name.to_string()))
+            let public_attr_names_set: HashSet<_> = crate::utils::attr::list_attr_names(module)
+                .unwrap_or_default()
+                .into_iter()
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
                 .collect();
             let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
diff --git a/pyo3_bindgen_engine/src/utils/attr.rs b/pyo3_bindgen_engine/src/utils/attr.rs
new file mode 100644
index 0000000..a1fe617
--- /dev/null
+++ b/pyo3_bindgen_engine/src/utils/attr.rs
@@ -0,0 +1,26 @@
+use crate::{syntax::Ident, Result};
+use itertools::Itertools;
+use pyo3::prelude::*;
+
+/// List the names of all attributes of the given object.
+///
+/// Note: `PyAnyMethods::dir()` cannot be used because it panics if `__dir__` raises an exception.
+pub fn list_attr_names(obj: &Bound<PyAny>) -> Result<Vec<Ident>> {
+    let py = obj.py();
+    let attr_names = py
+        .import_bound(pyo3::intern!(py, "builtins"))?
+        .call_method1(pyo3::intern!(py, "dir"), (obj,))
+        // Fallback to the attribute dictionary if the custom `__dir__` is not usable
+        .or_else(|_| {
+            obj.getattr(pyo3::intern!(py, "__dict__"))?
+                .call_method0(pyo3::intern!(py, "keys"))
+        })?;
+    Ok(attr_names
+        .iter()?
+        .filter_map(|attr_name| attr_name.ok()?.extract::<String>().ok())
+        .filter(|attr_name| !attr_name.is_empty())
+        .map(|attr_name| Ident::from_py(&attr_name))
+        // Remove duplicates
+        .unique()
+        .collect())
+}
diff --git a/pyo3_bindgen_engine/src/utils/mod.rs b/pyo3_bindgen_engine/src/utils/mod.rs
index 2620963..217bad0 100644
--- a/pyo3_bindgen_engine/src/utils/mod.rs
+++ b/pyo3_bindgen_engine/src/utils/mod.rs
@@ -1,5 +1,6 @@
 //! Various utilities.
 
+pub(crate) mod attr;
 pub mod error;
 pub(crate) mod io;
 pub mod result;
-- 
2.43.0


From 0452260e8114109259e0b9dad99366a83c506c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 09/57] fix: parse dependencies with suppressed output and skip
 those that do not exist

---
 pyo3_bindgen_engine/src/codegen.rs | 94 ++++++++++++++----------------
 1 file changed, 45 insertions(+), 49 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 712e9b9..dc50e30 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -206,59 +206,55 @@ impl Codegen {
 
         // Parse the external imports and add them to the module tree
         pyo3::Python::with_gil(|py| {
-            external_imports
-                .iter()
-                // Get the last valid module within the path of the import
-                .map(|import| {
-                    let mut last_module = py
-                        .import_bound(
-                            import
+            crate::io_utils::with_suppressed_python_output(
+                py,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || {
+                    external_imports
+                        .iter()
+                        // Get the last valid module within the path of the import
+                        // Note: The origin of an import does not have to exist as it is derived from `__module__`
+                        .filter_map(|import| {
+                            let mut last_module = import
                                 .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .unwrap();
-                    for path in &import[1..] {
-                        if let Ok(attr) = last_module.getattr(path.as_py()) {
-                            if let Ok(module) = attr.downcast_into::<pyo3::types::PyModule>() {
-                                last_module = module;
-                            } else {
-                                break;
+                                .and_then(|root| py.import_bound(root.to_py().as_str()).ok())?;
+                            for path in &import[1..] {
+                                if let Ok(attr) = last_module.getattr(path.as_py()) {
+                                    if let Ok(module) =
+                                        attr.downcast_into::<pyo3::types::PyModule>()
+                                    {
+                                        last_module = module;
+                                    } else {
+                                        break;
+                                    }
+                                } else {
+                                    break;
+                                }
                             }
-                        } else {
-                            break;
-                        }
-                    }
-                    last_module
-                })
-                // Parse the module and add it to the module tree
-                .unique_by(|module| module.name().unwrap().to_string())
-                // Filter attributes based on various configurable conditions
-                .filter(|module| {
-                    self.cfg.is_attr_allowed(
-                        &Ident::from_py(&module.name().unwrap().to_string()),
-                        &Path::from_py(
-                            &module
-                                .getattr(pyo3::intern!(py, "__module__"))
-                                .map(|a| a.to_string())
-                                .unwrap_or_default(),
-                        ),
-                        &py.get_type_bound::<pyo3::types::PyModule>(),
-                    )
-                })
-                .try_for_each(|module| {
-                    crate::io_utils::with_suppressed_python_output(
-                        module.py(),
-                        self.cfg.suppress_python_stdout,
-                        self.cfg.suppress_python_stderr,
-                        || {
+                            Some(last_module)
+                        })
+                        // Parse the module and add it to the module tree
+                        .unique_by(|module| module.name().unwrap().to_string())
+                        // Filter attributes based on various configurable conditions
+                        .filter(|module| {
+                            self.cfg.is_attr_allowed(
+                                &Ident::from_py(&module.name().unwrap().to_string()),
+                                &Path::from_py(
+                                    &module
+                                        .getattr(pyo3::intern!(py, "__module__"))
+                                        .map(|a| a.to_string())
+                                        .unwrap_or_default(),
+                                ),
+                                &py.get_type_bound::<pyo3::types::PyModule>(),
+                            )
+                        })
+                        .try_for_each(|module| {
                             self.modules.push(Module::parse(&self.cfg, &module)?);
                             Ok(())
-                        },
-                    )
-                })?;
-            Ok(())
+                        })
+                },
+            )
         })
     }
 
-- 
2.43.0


From 657e93215fcd15aa871768e32341bce03b9b3042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 10/57] fix: do not convert values of analysed modules to
 strings

---
 .../src/syntax/common/attribute_variant.rs             | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index 19e1457..c1bfbd8 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -61,12 +61,12 @@ impl AttributeVariant {
             attr_type_module.to_py().as_str() == "functools" && attr_type_name.as_py() == "partial";
         let is_type = ["typing", "types"].contains(&attr_type_module.to_py().as_str());
 
-        // Some decorators might make a class look external, but they tend to include "<locals>" in their name
-        let is_in_locals = attr.to_string().contains("<locals>");
-
         // Determine if the attribute is imported
-        let is_external = !is_in_locals && (attr_module != owner_name);
-        let is_imported = is_external && (is_submodule || is_class || is_function || is_method);
+        // Note: Some decorators might make a class look external, but they tend to include "<locals>" in their name
+        // Note: Only such attributes are converted to string because `__str__` of any other could have side effects
+        let is_imported = (is_submodule || is_class || is_function || is_method)
+            && attr_module != owner_name
+            && !attr.to_string().contains("<locals>");
 
         Ok(if consider_import && is_imported {
             AttributeVariant::Import
-- 
2.43.0


From 2973583fbda13cb6312bd08d960e2ab9cee8f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 11/57] fix: do not let imported submodules decide whether a
 prelude is generated

---
 pyo3_bindgen_engine/src/syntax/module.rs | 41 ++++++++++++++++++------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 86d5d52..6104a98 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -57,13 +57,6 @@ impl Module {
         // Extract the name of the module
         let name = Path::from_py(&module.name().unwrap().to_string());
 
-        // Extract the index of the module as prelude (if enabled)
-        let prelude = if cfg.generate_preludes {
-            Self::extract_prelude(cfg, module, &name)
-        } else {
-            Vec::new()
-        };
-
         // Determine if the module is a package that contains submodules
         let is_package = module.hasattr(pyo3::intern!(py, "__path__"))?;
 
@@ -74,6 +67,13 @@ impl Module {
             HashSet::default()
         };
 
+        // Extract the index of the module as prelude (if enabled)
+        let prelude = if cfg.generate_preludes {
+            Self::extract_prelude(cfg, module, &name, &submodules_to_process)
+        } else {
+            Vec::new()
+        };
+
         // Initialize lists for all other members of the module
         let mut imports = Vec::new();
         let mut conflicting_imports = Vec::new();
@@ -557,6 +557,7 @@ impl Module {
         cfg: &Config,
         module: &pyo3::Bound<pyo3::types::PyModule>,
         module_name: &Path,
+        submodules: &HashSet<Ident>,
     ) -> Vec<Ident> {
         // Extract the index (__all__) of the module if it exists
         // Note: `PyModule::index()` cannot be used because it adds an empty `__all__` to modules that have none
@@ -576,6 +577,17 @@ impl Module {
             .unique()
             .collect_vec();
 
+        // Submodules become attributes of their package only once they are imported, which must not influence the prelude
+        let is_submodule = |attr_name: &Ident| match module.getattr(attr_name.as_py()) {
+            Ok(attr) => attr.downcast::<pyo3::types::PyModule>().is_ok_and(|attr| {
+                attr.name().is_ok_and(|attr_module_name| {
+                    attr_module_name.to_string()
+                        == module_name.join(&attr_name.clone().into()).to_py()
+                })
+            }),
+            Err(_) => submodules.contains(attr_name),
+        };
+
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
         {
@@ -583,8 +595,13 @@ impl Module {
                 .unwrap_or_default()
                 .into_iter()
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
+                .filter(|attr_name| !is_submodule(attr_name))
+                .collect();
+            let index_attr_names_set: HashSet<_> = index_attr_names
+                .iter()
+                .filter(|attr_name| !is_submodule(attr_name))
+                .cloned()
                 .collect();
-            let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
 
             if index_attr_names_set == public_attr_names_set {
                 return Vec::new();
@@ -594,7 +611,9 @@ impl Module {
         // If the generation of dependencies is disabled, retain only reexports
         if !cfg.generate_dependencies {
             index_attr_names.retain(|attr_name| {
-                if let Ok(attr) = module.getattr(attr_name.as_py()) {
+                if is_submodule(attr_name) {
+                    true
+                } else if let Ok(attr) = module.getattr(attr_name.as_py()) {
                     let is_reexport = module_name.root().is_some_and(|root_module| {
                         let attr_module = Path::from_py(
                             &attr
@@ -613,7 +632,9 @@ impl Module {
 
         // Retain only allowed attributes
         index_attr_names.retain(|attr_name| {
-            if let Ok(attr) = module.getattr(attr_name.as_py()) {
+            if is_submodule(attr_name) {
+                submodules.contains(attr_name)
+            } else if let Ok(attr) = module.getattr(attr_name.as_py()) {
                 let attr_type = attr.get_type();
                 cfg.is_attr_allowed(attr_name, module_name, &attr_type)
             } else {
-- 
2.43.0


From f5f17d81936fd2fc2153fa39e75a96663764a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 12/57] fix: embed the source code of modules with dotted and
 keyword names under their Python name

---
 pyo3_bindgen_engine/src/codegen.rs       | 16 +++++++++++-----
 pyo3_bindgen_engine/src/syntax/module.rs |  2 +-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index dc50e30..ce1972d 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -161,11 +161,7 @@ impl Codegen {
         self.canonicalize();
 
         // Embed the source code of the modules
-        self.modules.iter_mut().for_each(|module| {
-            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_rs()) {
-                module.source_code = Some(source_code.clone());
-            }
-        });
+        Self::embed_source_code(&mut self.modules, &self.embedded_source_code);
 
         // Generate the bindings for all modules
         self.modules
@@ -180,6 +176,16 @@ impl Codegen {
         Ok(std::fs::write(output_path, self.generate()?.to_string())?)
     }
 
+    fn embed_source_code(modules: &mut [Module], source_code: &HashMap<String, String>) {
+        for module in modules {
+            if let Some(source_code) = source_code.get(&module.name.to_py()) {
+                module.source_code = Some(source_code.clone());
+            }
+            // Modules with dotted names are nested in their parent packages
+            Self::embed_source_code(&mut module.submodules, source_code);
+        }
+    }
+
     fn parse_dependencies(&mut self) -> Result<()> {
         fn get_imports_recursive(input: &[Module]) -> Vec<Import> {
             let mut imports = Vec::new();
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 6104a98..725aec7 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -472,7 +472,7 @@ impl Module {
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-            let module_name = self.name.to_rs();
+            let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
-- 
2.43.0


From bdaa7c5123a17528124bd7a9da4d5c430e2c4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 13/57] fix: support source code of modules in packages that
 cannot be imported

---
 pyo3_bindgen_engine/src/codegen.rs       | 43 ++++++++++++++----------
 pyo3_bindgen_engine/src/syntax/module.rs | 25 ++++++--------
 2 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index ce1972d..0e88c06 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -158,7 +158,7 @@ impl Codegen {
         }
 
         // Canonicalize the module tree
-        self.canonicalize();
+        self.canonicalize()?;
 
         // Embed the source code of the modules
         Self::embed_source_code(&mut self.modules, &self.embedded_source_code);
@@ -264,29 +264,38 @@ impl Codegen {
         })
     }
 
-    fn canonicalize(&mut self) {
+    fn canonicalize(&mut self) -> Result<()> {
         // Canonicalize the module tree, such that no submodules remain at the top-level
         // Example: If `mod.submod.subsubmod` is currently top-level, it will be embedded as submodule into `mod.submod`
         //          and `mod.submod` will be embedded in top-level `mod`
         pyo3::Python::with_gil(|py| {
-            self.modules.iter_mut().for_each(|module| {
-                if module.name.len() > 1 {
-                    *module =
-                        (0..module.name.len() - 1)
-                            .rev()
-                            .fold(module.clone(), |package, i| {
-                                let name = Path::from(&module.name[0..=i]);
-                                let mut parent_package =
-                                    Module::empty(py, name).unwrap_or_else(|_| unreachable!());
-                                parent_package.submodules.push(package);
-                                parent_package
-                            });
-                }
-            });
-        });
+            crate::io_utils::with_suppressed_python_output(
+                py,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || {
+                    self.modules.iter_mut().for_each(|module| {
+                        if module.name.len() > 1 {
+                            *module = (0..module.name.len() - 1).rev().fold(
+                                module.clone(),
+                                |package, i| {
+                                    let name = Path::from(&module.name[0..=i]);
+                                    let mut parent_package = Module::empty(py, name);
+                                    parent_package.submodules.push(package);
+                                    parent_package
+                                },
+                            );
+                        }
+                    });
+                    Ok(())
+                },
+            )
+        })?;
 
         // Merge duplicate modules in the tree
         self.merge_duplicate_modules();
+
+        Ok(())
     }
 
     fn merge_duplicate_modules(&mut self) {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 725aec7..4a52763 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -23,20 +23,17 @@ pub struct Module {
 }
 
 impl Module {
-    pub fn empty(py: pyo3::Python, name: Path) -> Result<Self> {
-        let module = py.import_bound(name.to_py().as_str())?;
-
+    pub fn empty(py: pyo3::Python, name: Path) -> Self {
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
-
-        Ok(Self {
+        // Note: The parent packages of a module parsed from its source code do not have to exist
+        let docstring = py
+            .import_bound(name.to_py().as_str())
+            .and_then(|module| module.getattr(pyo3::intern!(py, "__doc__")))
+            .map(|docstring| docstring.to_string())
+            .ok()
+            .filter(|docstring| !docstring.is_empty() && docstring != "None");
+
+        Self {
             name,
             prelude: Vec::default(),
             imports: Vec::default(),
@@ -48,7 +45,7 @@ impl Module {
             docstring,
             is_package: true,
             source_code: None,
-        })
+        }
     }
 
     pub fn parse(cfg: &Config, module: &pyo3::Bound<pyo3::types::PyModule>) -> Result<Self> {
-- 
2.43.0


From 9ad880c43aa5c995f7c08f93d28ed5486015290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 14/57] fix: make embedded modules with dotted names importable

---
 pyo3_bindgen_engine/src/syntax/module.rs | 62 +++++++++++++++++++-----
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 4a52763..b30db57 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -471,24 +471,60 @@ impl Module {
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
             let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
+            let mut embed_source_code = quote::quote! {
+                pyo3::types::PyAnyMethods::set_item(
+                    &pyo3::types::PyAnyMethods::getattr(
+                        py.import_bound(pyo3::intern!(py, "sys"))?.as_any(),
+                        pyo3::intern!(py, "modules"),
+                    )?,
+                    #module_name,
+                    pyo3::types::PyModule::from_code_bound(
+                        py,
+                        SOURCE_CODE,
+                        #file_name,
+                        #module_name,
+                    )?,
+                )
+            };
+            // Make sure that the parent packages of the module can be imported and provide access to it
+            if self.name.len() > 1 {
+                let embed_in_parents = (1..self.name.len()).map(|i| {
+                    let parent_name = Path::from(&self.name[..i]).to_py();
+                    let child_name = Path::from(&self.name[..=i]).to_py();
+                    let child_attr_name = self.name[i].as_py();
+                    quote::quote! {
+                        if py.import_bound(#parent_name).is_err() {
+                            pyo3::types::PyAnyMethods::set_item(
+                                &modules,
+                                #parent_name,
+                                pyo3::types::PyModule::new_bound(py, #parent_name)?,
+                            )?;
+                        }
+                        if let Ok(child) = pyo3::types::PyAnyMethods::get_item(&modules, #child_name) {
+                            pyo3::types::PyAnyMethods::setattr(
+                                py.import_bound(#parent_name)?.as_any(),
+                                #child_attr_name,
+                                child,
+                            )?;
+                        }
+                    }
+                });
+                embed_source_code = quote::quote! {
+                    #embed_source_code?;
+                    let modules = pyo3::types::PyAnyMethods::getattr(
+                        py.import_bound(pyo3::intern!(py, "sys"))?.as_any(),
+                        pyo3::intern!(py, "modules"),
+                    )?;
+                    #(#embed_in_parents)*
+                    Ok(())
+                };
+            }
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
                 /// in order to enable the use of the generated Rust bindings.
                 pub fn pyo3_embed_python_source_code<'py>(py: ::pyo3::marker::Python<'py>) -> ::pyo3::PyResult<()> {
                     const SOURCE_CODE: &str = #source_code;
-                    pyo3::types::PyAnyMethods::set_item(
-                        &pyo3::types::PyAnyMethods::getattr(
-                            py.import_bound(pyo3::intern!(py, "sys"))?.as_any(),
-                            pyo3::intern!(py, "modules"),
-                        )?,
-                        #module_name,
-                        pyo3::types::PyModule::from_code_bound(
-                            py,
-                            SOURCE_CODE,
-                            #file_name,
-                            #module_name,
-                        )?,
-                    )
+                    #embed_source_code
                 }
             }
         } else {
-- 
2.43.0


From 1b9cbbf5cfff8df272a16fa646ffd61ad16b7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 15/57] fix: generate requested nested modules without
 submodule traversal

---
 pyo3_bindgen_engine/src/syntax/module.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index b30db57..1f18c3b 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -458,14 +458,13 @@ impl Module {
             );
         }
         // Submodules
-        if cfg.traverse_submodules {
-            module_content.extend(
-                self.submodules
-                    .iter()
-                    .map(|module| module.generate(cfg, top_level_modules, all_types))
-                    .collect::<Result<proc_macro2::TokenStream>>()?,
-            );
-        }
+        // Note: Without `cfg.traverse_submodules`, these are only the explicitly requested modules
+        module_content.extend(
+            self.submodules
+                .iter()
+                .map(|module| module.generate(cfg, top_level_modules, all_types))
+                .collect::<Result<proc_macro2::TokenStream>>()?,
+        );
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-- 
2.43.0


From a923e5644886856d1278fd81c29d481ea95741e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 16/57] fix: import the module of a function or property
 instead of looking it up in its package

---
 pyo3_bindgen_engine/src/syntax/common/path.rs |  4 ++--
 pyo3_bindgen_engine/src/syntax/function.rs    | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 789a005..c501728 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -195,9 +195,9 @@ impl Path {
     }
 
     pub fn import_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
-        // Find the last package and import it via py.import, then get the rest of the path via getattr()
+        // Find the last package or module and import it via py.import, then get the rest of the path via getattr()
         let mut package_path = self.root().unwrap_or_else(|| unreachable!());
-        for i in (1..self.len()).rev() {
+        for i in (1..=self.len()).rev() {
             let module_name = Self::from(&self[..i]);
             if py.import_bound(module_name.to_py().as_str()).is_ok() {
                 package_path = module_name;
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index b1ab90e..03adb1a 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -495,7 +495,18 @@ impl Function {
             FunctionType::Method {
                 class_path,
                 typ: MethodType::ClassMethod | MethodType::StaticMethod | MethodType::Constructor,
-            } => pyo3::Python::with_gil(|py| class_path.import_quote(py)),
+            } => {
+                let module = pyo3::Python::with_gil(|py| {
+                    class_path
+                        .parent()
+                        .unwrap_or_else(|| unreachable!())
+                        .import_quote(py)
+                });
+                let class_name = class_path.name().as_py();
+                quote::quote! {
+                    ::pyo3::types::PyAnyMethods::getattr(#module.as_any(), ::pyo3::intern!(py, #class_name))?
+                }
+            }
             FunctionType::Method {
                 typ: MethodType::InstanceMethod | MethodType::Callable,
                 ..
-- 
2.43.0


From 9f20bc85f3d20fa1ef499d7211c5912d1991db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 17/57] fix: attach the parent packages of embedded modules to
 each other

---
 pyo3_bindgen_engine/src/syntax/module.rs | 35 +++++++++++++++---------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 1f18c3b..b17c20c 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -487,35 +487,44 @@ impl Module {
             };
             // Make sure that the parent packages of the module can be imported and provide access to it
             if self.name.len() > 1 {
-                let embed_in_parents = (1..self.name.len()).map(|i| {
+                let attach_to_parent = |i: usize| {
                     let parent_name = Path::from(&self.name[..i]).to_py();
                     let child_name = Path::from(&self.name[..=i]).to_py();
                     let child_attr_name = self.name[i].as_py();
                     quote::quote! {
-                        if py.import_bound(#parent_name).is_err() {
+                        pyo3::types::PyAnyMethods::setattr(
+                            py.import_bound(#parent_name)?.as_any(),
+                            #child_attr_name,
+                            pyo3::types::PyAnyMethods::get_item(&modules, #child_name)?,
+                        )
+                    }
+                };
+                let embed_parents = (0..self.name.len() - 1).map(|i| {
+                    let package_name = Path::from(&self.name[..=i]).to_py();
+                    let attach_package = (i > 0).then(|| {
+                        let attach_package = attach_to_parent(i);
+                        quote::quote! { #attach_package?; }
+                    });
+                    quote::quote! {
+                        if py.import_bound(#package_name).is_err() {
                             pyo3::types::PyAnyMethods::set_item(
                                 &modules,
-                                #parent_name,
-                                pyo3::types::PyModule::new_bound(py, #parent_name)?,
-                            )?;
-                        }
-                        if let Ok(child) = pyo3::types::PyAnyMethods::get_item(&modules, #child_name) {
-                            pyo3::types::PyAnyMethods::setattr(
-                                py.import_bound(#parent_name)?.as_any(),
-                                #child_attr_name,
-                                child,
+                                #package_name,
+                                pyo3::types::PyModule::new_bound(py, #package_name)?,
                             )?;
+                            #attach_package
                         }
                     }
                 });
+                let attach_module = attach_to_parent(self.name.len() - 1);
                 embed_source_code = quote::quote! {
                     #embed_source_code?;
                     let modules = pyo3::types::PyAnyMethods::getattr(
                         py.import_bound(pyo3::intern!(py, "sys"))?.as_any(),
                         pyo3::intern!(py, "modules"),
                     )?;
-                    #(#embed_in_parents)*
-                    Ok(())
+                    #(#embed_parents)*
+                    #attach_module
                 };
             }
             quote::quote! {
-- 
2.43.0


From cc9350070d5db8383003f7320cc77f6a7e0a91b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 18/57] fix: use the existing Rust types of IP addresses

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index d9f27f1..ce732dd 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -202,8 +202,8 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::IpV4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::IpV6Addr)),
+            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::Ipv4Addr)),
+            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::Ipv6Addr)),
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
-- 
2.43.0


From a36522b4413f9e74178c57467bfd424e6f3be29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 19/57] fix: only map hashable Rust types to keys of hash maps
 and sets

---
 pyo3_bindgen_engine/src/typing/mod.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index c5ec710..c692cde 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -78,12 +78,7 @@ impl Type {
             Self::PyBool
                 | Self::IpV4Addr
                 | Self::IpV6Addr
-                | Self::Path
-                | Self::PyDelta
-                | Self::PyDict { .. }
-                | Self::PyFrozenSet(..)
                 | Self::PyLong
-                | Self::PySet(..)
                 | Self::PyString
         )
     }
-- 
2.43.0


From 92f0feb48a313941b466477ef085a622453c3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 20/57] fix: do not map subclasses of builtin types to the Rust
 type of their base

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 80 ++++++++++++++---------
 pyo3_bindgen_engine/src/typing/mod.rs     |  6 +-
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 50d259b..35dedc2 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -45,71 +45,87 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
 impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
     type Error = PyBindgenError;
     fn try_from(value: pyo3::Bound<pyo3::types::PyType>) -> Result<Self> {
-        Ok(match value {
+        Ok(match &value {
             // Primitives
-            t if t.is_subclass_of::<pyo3::types::PyBool>()? => Self::PyBool,
-            t if t.is_subclass_of::<pyo3::types::PyByteArray>()? => Self::PyByteArray,
-            t if t.is_subclass_of::<pyo3::types::PyBytes>()? => Self::PyBytes,
-            t if t.is_subclass_of::<pyo3::types::PyFloat>()? => Self::PyFloat,
-            t if t.is_subclass_of::<pyo3::types::PyLong>()? => Self::PyLong,
-            t if t.is_subclass_of::<pyo3::types::PyString>()? => Self::PyString,
+            t if is_type::<pyo3::types::PyBool>(t) => Self::PyBool,
+            t if is_type::<pyo3::types::PyByteArray>(t) => Self::PyByteArray,
+            t if is_type::<pyo3::types::PyBytes>(t) => Self::PyBytes,
+            t if is_type::<pyo3::types::PyFloat>(t) => Self::PyFloat,
+            t if is_type::<pyo3::types::PyLong>(t) => Self::PyLong,
+            t if is_type::<pyo3::types::PyString>(t) => Self::PyString,
 
             // Collections
-            t if t.is_subclass_of::<pyo3::types::PyDict>()? => Self::PyDict {
+            t if is_type::<pyo3::types::PyDict>(t) => Self::PyDict {
                 key_type: Box::new(Self::Unknown),
                 value_type: Box::new(Self::Unknown),
             },
-            t if t.is_subclass_of::<pyo3::types::PyFrozenSet>()? => {
+            t if is_type::<pyo3::types::PyFrozenSet>(t) => {
                 Self::PyFrozenSet(Box::new(Self::Unknown))
             }
-            t if t.is_subclass_of::<pyo3::types::PyList>()? => {
-                Self::PyList(Box::new(Self::Unknown))
-            }
-            t if t.is_subclass_of::<pyo3::types::PySet>()? => Self::PySet(Box::new(Self::Unknown)),
-            t if t.is_subclass_of::<pyo3::types::PyTuple>()? => Self::PyTuple(vec![Self::Unknown]),
+            t if is_type::<pyo3::types::PyList>(t) => Self::PyList(Box::new(Self::Unknown)),
+            t if is_type::<pyo3::types::PySet>(t) => Self::PySet(Box::new(Self::Unknown)),
+            t if is_type::<pyo3::types::PyTuple>(t) => Self::PyTuple(vec![Self::Unknown]),
 
             // Additional types - std
-            t if t.is_subclass_of::<pyo3::types::PySlice>()? => Self::PySlice,
+            t if is_type::<pyo3::types::PySlice>(t) => Self::PySlice,
 
             // Additional types - num-complex
-            t if t.is_subclass_of::<pyo3::types::PyComplex>()? => Self::PyComplex,
+            t if is_type::<pyo3::types::PyComplex>(t) => Self::PyComplex,
 
             // Additional types - datetime
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
+            t if is_type::<pyo3::types::PyDate>(t) => Self::PyDate,
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyDateTime>()? => Self::PyDateTime,
+            t if is_type::<pyo3::types::PyDateTime>(t) => Self::PyDateTime,
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyDelta>()? => Self::PyDelta,
+            t if is_type::<pyo3::types::PyDelta>(t) => Self::PyDelta,
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyTime>()? => Self::PyTime,
+            t if is_type::<pyo3::types::PyTime>(t) => Self::PyTime,
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyTzInfo>()? => Self::PyTzInfo,
+            t if is_type::<pyo3::types::PyTzInfo>(t) => Self::PyTzInfo,
 
             // Python-specific types
-            t if t.is_subclass_of::<pyo3::types::PyCapsule>()? => Self::PyCapsule,
-            t if t.is_subclass_of::<pyo3::types::PyCFunction>()? => Self::PyCFunction,
+            t if is_type::<pyo3::types::PyCapsule>(t) => Self::PyCapsule,
+            t if is_type::<pyo3::types::PyCFunction>(t) => Self::PyCFunction,
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyCode>()? => Self::PyCode,
+            t if is_type::<pyo3::types::PyCode>(t) => Self::PyCode,
             #[cfg(all(not(Py_LIMITED_API), not(PyPy)))]
-            t if t.is_subclass_of::<pyo3::types::PyFrame>()? => Self::PyFrame,
+            t if is_type::<pyo3::types::PyFrame>(t) => Self::PyFrame,
             #[cfg(all(not(Py_LIMITED_API), not(PyPy)))]
-            t if t.is_subclass_of::<pyo3::types::PyFunction>()? => Self::PyFunction {
+            t if is_type::<pyo3::types::PyFunction>(t) => Self::PyFunction {
                 param_types: vec![Self::PyEllipsis],
                 return_annotation: Box::new(Self::Unknown),
             },
-            t if t.is_subclass_of::<pyo3::types::PyModule>()? => Self::PyModule,
+            t if is_type::<pyo3::types::PyModule>(t) => Self::PyModule,
             #[cfg(not(PyPy))]
-            t if t.is_subclass_of::<pyo3::types::PySuper>()? => Self::PySuper,
-            t if t.is_subclass_of::<pyo3::types::PyTraceback>()? => Self::PyTraceback,
-            t if t.is_subclass_of::<pyo3::types::PyType>()? => Self::PyType,
+            t if is_type::<pyo3::types::PySuper>(t) => Self::PySuper,
+            t if is_type::<pyo3::types::PyTraceback>(t) => Self::PyTraceback,
+            t if is_type::<pyo3::types::PyType>(t) => Self::PyType,
 
-            // Handle everything else as string
-            _ => Self::from_str(&value.to_string())?,
+            // Handle everything else by its qualified name
+            t => {
+                let py = t.py();
+                let module = t
+                    .getattr(pyo3::intern!(py, "__module__"))?
+                    .extract::<String>();
+                let name = t
+                    .getattr(pyo3::intern!(py, "__qualname__"))?
+                    .extract::<String>();
+                match (module, name) {
+                    (Ok(module), Ok(name)) if module == "builtins" => Self::from_str(&name)?,
+                    (Ok(module), Ok(name)) => Self::from_str(&format!("{module}.{name}"))?,
+                    _ => Self::Unknown,
+                }
+            }
         })
     }
 }
 
+/// Check if a Python type is exactly the type `T` (and not just a subclass of it).
+fn is_type<T: pyo3::PyTypeInfo>(typ: &pyo3::Bound<pyo3::types::PyType>) -> bool {
+    typ.is(&T::type_object_bound(typ.py()))
+}
+
 impl Type {
     fn from_typing(value: pyo3::Bound<pyo3::types::PyAny>) -> Result<Self> {
         let py = value.py();
diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index c692cde..ab3dc34 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -75,11 +75,7 @@ impl Type {
     fn is_hashable(&self) -> bool {
         matches!(
             self,
-            Self::PyBool
-                | Self::IpV4Addr
-                | Self::IpV6Addr
-                | Self::PyLong
-                | Self::PyString
+            Self::PyBool | Self::IpV4Addr | Self::IpV6Addr | Self::PyLong | Self::PyString
         )
     }
 }
-- 
2.43.0


From d0502c395632e04eabaa88445df7403995e0e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 21/57] fix: only treat unions at the top level of an
 annotation as unions

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 62 +++++++++--------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 35dedc2..ef2c83a 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -127,6 +127,15 @@ fn is_type<T: pyo3::PyTypeInfo>(typ: &pyo3::Bound<pyo3::types::PyType>) -> bool
 }
 
 impl Type {
+    fn from_union(inner_types: Vec<Self>) -> Self {
+        match inner_types.as_slice() {
+            [inner_type, Self::PyNone] | [Self::PyNone, inner_type] => {
+                Self::Optional(Box::new(inner_type.to_owned()))
+            }
+            _ => Self::Union(inner_types),
+        }
+    }
+
     fn from_typing(value: pyo3::Bound<pyo3::types::PyAny>) -> Result<Self> {
         let py = value.py();
         debug_assert_eq!(
@@ -152,19 +161,7 @@ impl Type {
                         .map(Self::try_from)
                         .collect::<Result<Vec<_>>>()?;
                     match wrapping_type {
-                        Self::Union(..) => {
-                            if inner_types.len() == 2 && inner_types.contains(&Self::PyNone) {
-                                Self::Optional(Box::new(
-                                    inner_types
-                                        .iter()
-                                        .find(|x| **x != Self::PyNone)
-                                        .unwrap_or_else(|| unreachable!())
-                                        .to_owned(),
-                                ))
-                            } else {
-                                Self::Union(inner_types)
-                            }
-                        }
+                        Self::Union(..) => Self::from_union(inner_types),
                         Self::Optional(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
                             Self::Optional(Box::new(inner_types[0].clone()))
@@ -240,29 +237,12 @@ impl std::str::FromStr for Type {
             "str" => Self::PyString,
 
             // Enums
-            optional
-                if optional.matches('|').count() == 1 && optional.matches("None").count() == 1 =>
-            {
-                let inner_type = Self::from_str(
-                    optional
-                        .split('|')
-                        .map(str::trim)
-                        .find(|x| *x != "None")
-                        .unwrap_or_else(|| unreachable!()),
-                )?;
-                Self::Optional(Box::new(inner_type))
-            }
-            r#union if r#union.contains('|') => {
-                let mut inner_types = r#union
-                    .split('|')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
-                let inner_types = inner_types
+            r#union if split_union(r#union).len() > 1 => {
+                let inner_types = split_union(r#union)
                     .iter()
                     .map(|x| Self::from_str(x))
-                    .collect::<Result<_>>()?;
-                Self::Union(inner_types)
+                    .collect::<Result<Vec<_>>>()?;
+                Self::from_union(inner_types)
             }
             "Union" => Self::Union(vec![Self::Unknown]),
             "" | "None" | "NoneType" => Self::PyNone,
@@ -492,6 +472,13 @@ impl std::str::FromStr for Type {
     }
 }
 
+/// Splits a union of types, while ignoring the unions that are nested inside of its members.
+fn split_union(value: &str) -> Vec<String> {
+    let mut inner_types = value.split('|').map(|x| x.trim().to_owned()).collect_vec();
+    repair_complex_sequence(&mut inner_types, '|');
+    inner_types
+}
+
 // TODO: Refactor `repair_complex_sequence()` into something more sensible
 /// Repairs complex wrapped sequences.
 fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
@@ -506,13 +493,14 @@ fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
     'outer: while !traversed_all_elements {
         traversed_all_elements = true;
         'inner: for i in start_index..(sequence.len() - 1) {
-            let mut n_scopes = sequence[i].matches('[').count() - sequence[i].matches(']').count();
+            let mut n_scopes = sequence[i].matches('[').count() as isize
+                - sequence[i].matches(']').count() as isize;
             if n_scopes == 0 {
                 continue;
             }
             for j in (i + 1)..sequence.len() {
-                n_scopes += sequence[j].matches('[').count();
-                n_scopes -= sequence[j].matches(']').count();
+                n_scopes += sequence[j].matches('[').count() as isize;
+                n_scopes -= sequence[j].matches(']').count() as isize;
                 if n_scopes == 0 {
                     let mut new_element = sequence[i].clone();
                     for relevant_element in sequence.iter().take(j + 1).skip(i + 1) {
-- 
2.43.0


From e721f455f4fbc3a432ff722ca35a494e20390ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 22/57] fix: use the annotated type of typing.Annotated

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index ef2c83a..514b42d 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -148,6 +148,12 @@ impl Type {
 
         if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
             let wrapping_type = Self::try_from(wrapping_type)?;
+
+            // `Annotated` only adds metadata to the type
+            if value.hasattr(pyo3::intern!(py, "__metadata__"))? {
+                return Ok(wrapping_type);
+            }
+
             Ok(
                 if let Ok(inner_types) =
                     value
-- 
2.43.0


From 5599e429d78e3081146f93e5d7d2e110a145ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 23/57] fix: do not panic on dict annotations without two
 arguments

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 514b42d..fb5c296 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -269,9 +269,13 @@ impl std::str::FromStr for Type {
                     .iter()
                     .map(|x| Self::from_str(x))
                     .collect::<Result<Vec<_>>>()?;
+                let (key_type, value_type) = match inner_types.as_slice() {
+                    [key_type, value_type] => (key_type.clone(), value_type.clone()),
+                    _ => (Self::Unknown, Self::Unknown),
+                };
                 Self::PyDict {
-                    key_type: Box::new(inner_types[0].clone()),
-                    value_type: Box::new(inner_types[1].clone()),
+                    key_type: Box::new(key_type),
+                    value_type: Box::new(value_type),
                 }
             }
             "dict" | "Dict" | "Mapping" => Self::PyDict {
-- 
2.43.0


From e19186005992858b068ed0900778cdc55e81fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 24/57] fix: map type[T] to a type instead of to an instance of
 T

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index fb5c296..f8090d2 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -207,10 +207,6 @@ impl Type {
                                 ),
                             }
                         }
-                        Self::PyType => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            inner_types[0].clone()
-                        }
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
                             wrapping_type
@@ -428,12 +424,7 @@ impl std::str::FromStr for Type {
             #[cfg(not(PyPy))]
             "super" => Self::PySuper,
             "traceback" => Self::PyTraceback,
-            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::from_str(
-                typ.strip_prefix("type[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::PyType,
 
             // classes
             class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
-- 
2.43.0


From 4ae302ee3d7951052c25b8b263a522bbefd2a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 25/57] fix: do not read the arguments of unsupported
 annotations as types

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index f8090d2..abab417 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -149,6 +149,11 @@ impl Type {
         if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
             let wrapping_type = Self::try_from(wrapping_type)?;
 
+            // Arguments of other annotations (e.g. the values of `Literal`) are not types
+            if matches!(wrapping_type, Self::Other(..)) {
+                return Ok(wrapping_type);
+            }
+
             // `Annotated` only adds metadata to the type
             if value.hasattr(pyo3::intern!(py, "__metadata__"))? {
                 return Ok(wrapping_type);
-- 
2.43.0


From 6bc8c863ea6092f2a56f112ce460d29cd4e784d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 26/57] fix: accept and return any callable for Callable
 annotations

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index ce732dd..738e805 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -48,14 +48,8 @@ impl Type {
             | Self::Union(..)
             | Self::PyNone
             | Self::PyDelta
-            | Self::PyEllipsis => {
-                quote! {
-                    let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyAny>>::into_py(#ident, py);
-                    let #ident = #ident.bind(py);
-                }
-            }
-            #[cfg(not(all(not(Py_LIMITED_API), not(PyPy))))]
-            Self::PyFunction { .. } => {
+            | Self::PyEllipsis
+            | Self::PyFunction { .. } => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyAny>>::into_py(#ident, py);
                     let #ident = #ident.bind(py);
@@ -274,12 +268,7 @@ impl Type {
                 quote!(::pyo3::Bound<'py, ::pyo3::types::PyFrame>),
                 quote!(&::pyo3::Bound<'py, ::pyo3::types::PyFrame>),
             ),
-            #[cfg(all(not(Py_LIMITED_API), not(PyPy)))]
-            Self::PyFunction { .. } => OutputType::new(
-                quote!(::pyo3::Bound<'py, ::pyo3::types::PyFunction>),
-                quote!(&::pyo3::Bound<'py, ::pyo3::types::PyFunction>),
-            ),
-            #[cfg(not(all(not(Py_LIMITED_API), not(PyPy))))]
+            // Callables are not only Python functions, but also e.g. builtin functions, classes and methods
             Self::PyFunction { .. } => OutputType::new(
                 quote!(::pyo3::Bound<'py, ::pyo3::types::PyAny>),
                 quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyAny>>),
-- 
2.43.0


From 5ff07d5f570bbac429d307167fee7d3d710ef7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 27/57] fix: pass bytes, bytearray, frozenset, tuple and path
 arguments as instances of these types

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 127 +++++++++++++++-------
 1 file changed, 90 insertions(+), 37 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 738e805..080ba74 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -7,13 +7,11 @@ use std::rc::Rc;
 
 impl Type {
     pub fn into_rs_owned(self, local_types: &HashMap<Path, Path>) -> proc_macro2::TokenStream {
-        let owned = self.into_rs(local_types).owned;
-        Rc::into_inner(owned).unwrap_or_else(|| unreachable!())
+        self.into_rs(local_types).owned.as_ref().clone()
     }
 
     pub fn into_rs_borrowed(self, local_types: &HashMap<Path, Path>) -> proc_macro2::TokenStream {
-        let borrowed = self.into_rs(local_types).borrowed;
-        Rc::into_inner(borrowed).unwrap_or_else(|| unreachable!())
+        self.into_rs(local_types).borrowed.as_ref().clone()
     }
 
     pub fn preprocess_borrowed(
@@ -25,18 +23,42 @@ impl Type {
             Self::PyDict {
                 key_type,
                 value_type,
-            } if !key_type.is_hashable()
-                || value_type
-                    .clone()
-                    .into_rs(local_types)
-                    .owned
-                    .to_string()
-                    .contains("PyAny") =>
-            {
+            } if !Self::is_hash_map(key_type, value_type, local_types) => {
                 quote! {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
+            Self::PyByteArray => {
+                quote! {
+                    let #ident = ::pyo3::types::PyByteArray::new_bound(py, #ident);
+                }
+            }
+            Self::PyBytes => {
+                quote! {
+                    let #ident = ::pyo3::types::PyBytes::new_bound(py, #ident);
+                }
+            }
+            Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => {
+                quote! {
+                    let #ident = ::pyo3::types::PyFrozenSet::new_bound(py, #ident)?;
+                }
+            }
+            Self::Path => {
+                quote! {
+                    let #ident = ::pyo3::types::PyAnyMethods::call_method1(
+                        py.import_bound(::pyo3::intern!(py, "pathlib"))?.as_any(),
+                        ::pyo3::intern!(py, "Path"),
+                        (#ident,),
+                    )?;
+                }
+            }
+            Self::PyTuple(inner_types)
+                if inner_types.len() == 2 && inner_types[1] == Self::PyEllipsis =>
+            {
+                quote! {
+                    let #ident = ::pyo3::types::PyTuple::new_bound(py, #ident);
+                }
+            }
             Self::PyTuple(inner_types) if inner_types.len() < 2 => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
@@ -68,14 +90,7 @@ impl Type {
                 Self::PyDict {
                     key_type,
                     value_type,
-                } if !key_type.is_hashable()
-                    || value_type
-                        .clone()
-                        .into_rs(local_types)
-                        .owned
-                        .to_string()
-                        .contains("PyAny") =>
-                {
+                } if !Self::is_hash_map(key_type, value_type, local_types) => {
                     quote! {
                         let #ident = if let Some(#ident) = #ident {
                             ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py)
@@ -90,6 +105,15 @@ impl Type {
         }
     }
 
+    /// Check if a dictionary can be represented by a Rust hash map.
+    fn is_hash_map(key_type: &Self, value_type: &Self, local_types: &HashMap<Path, Path>) -> bool {
+        let OutputType { owned, nested, .. } = value_type.clone().into_rs(local_types);
+        key_type.is_hashable()
+            && [owned, nested]
+                .iter()
+                .all(|value_type| !value_type.to_string().contains("PyAny"))
+    }
+
     fn into_rs(self, local_types: &HashMap<Path, Path>) -> OutputType {
         match self {
             Self::PyAny | Self::Unknown => OutputType::new(
@@ -100,15 +124,22 @@ impl Type {
 
             // Primitives
             Self::PyBool => OutputType::new_identical(quote!(bool)),
-            Self::PyByteArray | Self::PyBytes => OutputType::new(quote!(Vec<u8>), quote!(&[u8])),
+            Self::PyByteArray => OutputType::new(quote!(Vec<u8>), quote!(&[u8]))
+                .with_nested(quote!(::pyo3::Bound<'py, ::pyo3::types::PyByteArray>)),
+            Self::PyBytes => OutputType::new(quote!(Vec<u8>), quote!(&[u8]))
+                .with_nested(quote!(::pyo3::Bound<'py, ::pyo3::types::PyBytes>)),
             Self::PyFloat => OutputType::new_identical(quote!(f64)),
             Self::PyLong => OutputType::new_identical(quote!(i64)),
             Self::PyString => OutputType::new(quote!(::std::string::String), quote!(&str)),
 
             // Enums
             Self::Optional(inner_type) => {
-                let inner_type = inner_type.into_rs(local_types).owned;
-                OutputType::new_identical(quote!(::std::option::Option<#inner_type>))
+                let OutputType { owned, nested, .. } = inner_type.into_rs(local_types);
+                OutputType::new(
+                    quote!(::std::option::Option<#owned>),
+                    quote!(::std::option::Option<#nested>),
+                )
+                .with_nested(quote!(::std::option::Option<#nested>))
             }
             Self::Union(_inner_types) => {
                 // TODO: Support Rust enums where possible | alternatively, overload functions for each variant
@@ -130,13 +161,14 @@ impl Type {
                 key_type,
                 value_type,
             } => {
-                let value_type = value_type.into_rs(local_types).owned;
-                if key_type.is_hashable() && !value_type.to_string().contains("PyAny") {
+                if Self::is_hash_map(&key_type, &value_type, local_types) {
                     let key_type = key_type.into_rs(local_types).owned;
+                    let OutputType { owned, nested, .. } = value_type.into_rs(local_types);
                     OutputType::new(
-                        quote!(::std::collections::HashMap<#key_type, #value_type>),
-                        quote!(&::std::collections::HashMap<#key_type, #value_type>),
+                        quote!(::std::collections::HashMap<#key_type, #owned>),
+                        quote!(&::std::collections::HashMap<#key_type, #nested>),
                     )
+                    .with_nested(quote!(::std::collections::HashMap<#key_type, #nested>))
                 } else {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyDict>),
@@ -151,6 +183,7 @@ impl Type {
                         quote!(::std::collections::HashSet<#inner_type>),
                         quote!(&::std::collections::HashSet<#inner_type>),
                     )
+                    .with_nested(quote!(::pyo3::Bound<'py, ::pyo3::types::PyFrozenSet>))
                 } else {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyFrozenSet>),
@@ -159,8 +192,9 @@ impl Type {
                 }
             }
             Self::PyList(inner_type) => {
-                let inner_type = inner_type.into_rs(local_types).owned;
-                OutputType::new(quote!(Vec<#inner_type>), quote!(&[#inner_type]))
+                let OutputType { owned, nested, .. } = inner_type.into_rs(local_types);
+                OutputType::new(quote!(Vec<#owned>), quote!(&[#nested]))
+                    .with_nested(quote!(Vec<#nested>))
             }
             Self::PySet(inner_type) => {
                 if inner_type.is_hashable() {
@@ -185,20 +219,25 @@ impl Type {
                 } else if inner_types.len() == 2
                     && *inner_types.last().unwrap_or_else(|| unreachable!()) == Self::PyEllipsis
                 {
-                    Self::PyList(Box::new(inner_types[0].clone())).into_rs(local_types)
+                    Self::PyList(Box::new(inner_types[0].clone()))
+                        .into_rs(local_types)
+                        .with_nested(quote!(::pyo3::Bound<'py, ::pyo3::types::PyTuple>))
                 } else {
-                    let inner_types = inner_types
+                    let (owned, nested): (Vec<_>, Vec<_>) = inner_types
                         .into_iter()
-                        .map(|inner_type| inner_type.into_rs(local_types).owned)
-                        .collect_vec();
-                    OutputType::new_identical(quote!((#(#inner_types),*)))
+                        .map(|inner_type| inner_type.into_rs(local_types))
+                        .map(|OutputType { owned, nested, .. }| (owned, nested))
+                        .unzip();
+                    OutputType::new(quote!((#(#owned),*)), quote!((#(#nested),*)))
+                        .with_nested(quote!((#(#nested),*)))
                 }
             }
 
             // Additional types - std
             Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::Ipv4Addr)),
             Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::Ipv6Addr)),
-            Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
+            Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path))
+                .with_nested(quote!(::pyo3::Bound<'py, ::pyo3::types::PyAny>)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
                 quote!(::pyo3::Bound<'py, ::pyo3::types::PySlice>),
@@ -359,15 +398,28 @@ impl Type {
 
 #[derive(Debug, Clone)]
 struct OutputType {
+    /// Type of returned values
     owned: Rc<proc_macro2::TokenStream>,
+    /// Type of parameters
     borrowed: Rc<proc_macro2::TokenStream>,
+    /// Type of values inside of the containers that are passed as parameters
+    nested: Rc<proc_macro2::TokenStream>,
 }
 
 impl OutputType {
     fn new(owned: proc_macro2::TokenStream, borrowed: proc_macro2::TokenStream) -> Self {
+        let owned = Rc::new(owned);
         Self {
-            owned: Rc::new(owned),
+            owned: owned.clone(),
             borrowed: Rc::new(borrowed),
+            nested: owned,
+        }
+    }
+
+    fn with_nested(self, nested: proc_macro2::TokenStream) -> Self {
+        Self {
+            nested: Rc::new(nested),
+            ..self
         }
     }
 
@@ -375,7 +427,8 @@ impl OutputType {
         let output_type = Rc::new(output_type);
         Self {
             owned: output_type.clone(),
-            borrowed: output_type,
+            borrowed: output_type.clone(),
+            nested: output_type,
         }
     }
 }
-- 
2.43.0


From c0b402a9583b5270b836c2ceb680666c44ddd78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 28/57] fix: return iterables and iterators as Python objects

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 21 +++++++++------------
 pyo3_bindgen_engine/src/typing/into_rs.rs |  9 +++++++++
 pyo3_bindgen_engine/src/typing/mod.rs     |  1 +
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index abab417..6c60777 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -188,6 +188,10 @@ impl Type {
                             // debug_assert_eq!(inner_types.len(), 1);
                             Self::PyFrozenSet(Box::new(inner_types[0].clone()))
                         }
+                        Self::PyIterable(..) => {
+                            // debug_assert_eq!(inner_types.len(), 1);
+                            Self::PyIterable(Box::new(inner_types[0].clone()))
+                        }
                         Self::PyList(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
                             Self::PyList(Box::new(inner_types[0].clone()))
@@ -313,7 +317,7 @@ impl std::str::FromStr for Type {
                 )?;
                 Self::PyList(Box::new(inner_type))
             }
-            "Sequence" | "Iterable" | "Iterator" => Self::PyList(Box::new(Self::Unknown)),
+            "Sequence" => Self::PyList(Box::new(Self::Unknown)),
             iterable if iterable.starts_with("Iterable[") && iterable.ends_with(']') => {
                 let inner_type = Self::from_str(
                     iterable
@@ -322,18 +326,11 @@ impl std::str::FromStr for Type {
                         .strip_suffix(']')
                         .unwrap_or_else(|| unreachable!()),
                 )?;
-                Self::PyList(Box::new(inner_type))
-            }
-            iterator if iterator.starts_with("Iterator[") && iterator.ends_with(']') => {
-                let inner_type = Self::from_str(
-                    iterator
-                        .strip_prefix("Iterator[")
-                        .unwrap_or_else(|| unreachable!())
-                        .strip_suffix(']')
-                        .unwrap_or_else(|| unreachable!()),
-                )?;
-                Self::PyList(Box::new(inner_type))
+                Self::PyIterable(Box::new(inner_type))
             }
+            "Iterable" => Self::PyIterable(Box::new(Self::Unknown)),
+            // An iterator is consumed by its conversion, so it must stay a Python object
+            iterator if iterator == "Iterator" || iterator.starts_with("Iterator[") => Self::PyAny,
             set if set.starts_with("set[") && set.ends_with(']') => {
                 let inner_type = Self::from_str(
                     set.strip_prefix("set[")
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 080ba74..28b57f4 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -191,6 +191,15 @@ impl Type {
                     )
                 }
             }
+            Self::PyIterable(inner_type) => {
+                // Any iterable can be returned, but only lists of values are accepted as parameters
+                let nested = inner_type.into_rs(local_types).nested;
+                OutputType::new(
+                    quote!(::pyo3::Bound<'py, ::pyo3::types::PyAny>),
+                    quote!(&[#nested]),
+                )
+                .with_nested(quote!(Vec<#nested>))
+            }
             Self::PyList(inner_type) => {
                 let OutputType { owned, nested, .. } = inner_type.into_rs(local_types);
                 OutputType::new(quote!(Vec<#owned>), quote!(&[#nested]))
diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index ab3dc34..94b16bc 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -27,6 +27,7 @@ pub enum Type {
         value_type: Box<Type>,
     },
     PyFrozenSet(Box<Type>),
+    PyIterable(Box<Type>),
     PyList(Box<Type>),
     PySet(Box<Type>),
     PyTuple(Vec<Type>),
-- 
2.43.0


From 0989e26008f427a0e47eb7f5cdac005dc3ebb458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 29/57] fix: return mappings as Python objects

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 13 ++++++++++++-
 pyo3_bindgen_engine/src/typing/into_rs.rs | 18 ++++++++++++++++++
 pyo3_bindgen_engine/src/typing/mod.rs     |  4 ++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 6c60777..acfe92c 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -196,6 +196,13 @@ impl Type {
                             // debug_assert_eq!(inner_types.len(), 1);
                             Self::PyList(Box::new(inner_types[0].clone()))
                         }
+                        Self::PyMapping { .. } => {
+                            // debug_assert_eq!(inner_types.len(), 2);
+                            Self::PyMapping {
+                                key_type: Box::new(inner_types[0].clone()),
+                                value_type: Box::new(inner_types[1].clone()),
+                            }
+                        }
                         Self::PySet(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
                             Self::PySet(Box::new(inner_types[0].clone()))
@@ -283,7 +290,11 @@ impl std::str::FromStr for Type {
                     value_type: Box::new(value_type),
                 }
             }
-            "dict" | "Dict" | "Mapping" => Self::PyDict {
+            "dict" | "Dict" => Self::PyDict {
+                key_type: Box::new(Self::Unknown),
+                value_type: Box::new(Self::Unknown),
+            },
+            "Mapping" => Self::PyMapping {
                 key_type: Box::new(Self::Unknown),
                 value_type: Box::new(Self::Unknown),
             },
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 28b57f4..57b554a 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -23,6 +23,10 @@ impl Type {
             Self::PyDict {
                 key_type,
                 value_type,
+            }
+            | Self::PyMapping {
+                key_type,
+                value_type,
             } if !Self::is_hash_map(key_type, value_type, local_types) => {
                 quote! {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
@@ -205,6 +209,20 @@ impl Type {
                 OutputType::new(quote!(Vec<#owned>), quote!(&[#nested]))
                     .with_nested(quote!(Vec<#nested>))
             }
+            Self::PyMapping {
+                key_type,
+                value_type,
+            } => {
+                // Any mapping can be returned, but only dictionaries are accepted as parameters
+                let dict = Self::PyDict {
+                    key_type,
+                    value_type,
+                };
+                OutputType {
+                    owned: Rc::new(quote!(::pyo3::Bound<'py, ::pyo3::types::PyAny>)),
+                    ..dict.into_rs(local_types)
+                }
+            }
             Self::PySet(inner_type) => {
                 if inner_type.is_hashable() {
                     let inner_type = inner_type.into_rs(local_types).owned;
diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index 94b16bc..e09dd42 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -29,6 +29,10 @@ pub enum Type {
     PyFrozenSet(Box<Type>),
     PyIterable(Box<Type>),
     PyList(Box<Type>),
+    PyMapping {
+        key_type: Box<Type>,
+        value_type: Box<Type>,
+    },
     PySet(Box<Type>),
     PyTuple(Vec<Type>),
 
-- 
2.43.0


From 50a58020329e887f7503efc0a64a80b620425f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 30/57] fix: pass None instead of an empty dict for optional
 dict arguments

---
 pyo3_bindgen_engine/src/syntax/function.rs | 14 +++++++++++---
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 15 ---------------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 03adb1a..f14e7fa 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -388,10 +388,18 @@ impl Function {
             .parameters
             .iter()
             .zip(param_idents.iter())
-            .map(|(param, param_ident)| {
-                param
+            .map(|(param, param_ident)| match param.kind {
+                // Missing keyword arguments are the same as no keyword arguments
+                ParameterKind::VarKeyword => quote::quote! {
+                    let #param_ident = if let Some(#param_ident) = #param_ident {
+                        ::pyo3::types::IntoPyDict::into_py_dict_bound(#param_ident, py)
+                    } else {
+                        ::pyo3::types::PyDict::new_bound(py)
+                    };
+                },
+                _ => param
                     .annotation
-                    .preprocess_borrowed(param_ident, local_types)
+                    .preprocess_borrowed(param_ident, local_types),
             })
             .collect();
         let param_types: Vec<proc_macro2::TokenStream> = self
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 57b554a..80ed76e 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -90,21 +90,6 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
-            Self::Optional(inner_type) => match inner_type.as_ref() {
-                Self::PyDict {
-                    key_type,
-                    value_type,
-                } if !Self::is_hash_map(key_type, value_type, local_types) => {
-                    quote! {
-                        let #ident = if let Some(#ident) = #ident {
-                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py)
-                        } else {
-                            ::pyo3::types::PyDict::new_bound(py)
-                        };
-                    }
-                }
-                _ => proc_macro2::TokenStream::new(),
-            },
             _ => proc_macro2::TokenStream::new(),
         }
     }
-- 
2.43.0


From d4715cd0a1d2dc252a7b1bac7efb653869f1187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:16 +0000
Subject: [PATCH 31/57] fix: represent tuples with more than 12 elements by
 Python tuples

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 80ed76e..2eb31b6 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -63,7 +63,7 @@ impl Type {
                     let #ident = ::pyo3::types::PyTuple::new_bound(py, #ident);
                 }
             }
-            Self::PyTuple(inner_types) if inner_types.len() < 2 => {
+            Self::PyTuple(inner_types) if !Self::is_rust_tuple(inner_types) => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
                     let #ident = #ident.bind(py);
@@ -94,6 +94,12 @@ impl Type {
         }
     }
 
+    /// Check if a tuple can be represented by a Rust tuple (or a list for variadic tuples).
+    fn is_rust_tuple(inner_types: &[Self]) -> bool {
+        // Conversions of tuples are only implemented up to 12 elements
+        (2..=12).contains(&inner_types.len())
+    }
+
     /// Check if a dictionary can be represented by a Rust hash map.
     fn is_hash_map(key_type: &Self, value_type: &Self, local_types: &HashMap<Path, Path>) -> bool {
         let OutputType { owned, nested, .. } = value_type.clone().into_rs(local_types);
@@ -223,7 +229,7 @@ impl Type {
                 }
             }
             Self::PyTuple(inner_types) => {
-                if inner_types.len() < 2 {
+                if !Self::is_rust_tuple(&inner_types) {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyTuple>),
                         quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>),
-- 
2.43.0


From 26675ed8c2875c94a39af50ea84ffdd3c765605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 32/57] fix: represent tuples with unpacked elements by Python
 tuples

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 2eb31b6..26b0a06 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -98,6 +98,10 @@ impl Type {
     fn is_rust_tuple(inner_types: &[Self]) -> bool {
         // Conversions of tuples are only implemented up to 12 elements
         (2..=12).contains(&inner_types.len())
+            // The number of unpacked elements is not known
+            && !inner_types.iter().any(|inner_type| {
+                matches!(inner_type, Self::Other(name) if name.starts_with('*') || name == "Unpack")
+            })
     }
 
     /// Check if a dictionary can be represented by a Rust hash map.
-- 
2.43.0


From 64cad86bebb06bd3a61a245d5c465a2f7c845f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:06 +0000
Subject: [PATCH 33/57] fix: return coroutines as Python objects

---
 pyo3_bindgen_engine/src/syntax/function.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index f14e7fa..32aea1d 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -106,7 +106,15 @@ impl Function {
             let return_annotation = {
                 let return_annotation =
                     function_signature.getattr(pyo3::intern!(py, "return_annotation"))?;
-                if return_annotation.is(&function_signature.getattr(pyo3::intern!(py, "empty"))?) {
+                // The annotation of a coroutine function describes the result of its coroutine, not the coroutine itself
+                let is_coroutine_function = py
+                    .import_bound(pyo3::intern!(py, "inspect"))?
+                    .call_method1(pyo3::intern!(py, "iscoroutinefunction"), (function,))?
+                    .is_truthy()?;
+                if is_coroutine_function
+                    || return_annotation
+                        .is(&function_signature.getattr(pyo3::intern!(py, "empty"))?)
+                {
                     Type::Unknown
                 } else {
                     return_annotation.try_into()?
-- 
2.43.0


From ef284ff53d88e4b9425833db185671921c1a841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 34/57] fix: use the annotation of the setter for the parameter
 of property setters

---
 pyo3_bindgen_engine/src/syntax/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 3f89eff..363d04d 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -315,11 +315,11 @@ impl Property {
             }
         };
         let param_name = self.name.name().as_py();
-        let param_preprocessing = self.annotation.preprocess_borrowed(
+        let param_preprocessing = self.setter_annotation.preprocess_borrowed(
             &syn::Ident::new("p_value", proc_macro2::Span::call_site()),
             local_types,
         );
-        let param_type = self.annotation.clone().into_rs_borrowed(local_types);
+        let param_type = self.setter_annotation.clone().into_rs_borrowed(local_types);
         match &self.owner {
             PropertyOwner::Module => {
                 let import = pyo3::Python::with_gil(|py| {
-- 
2.43.0


From 472953c67530e8961417670f31b94db4a5c271ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 35/57] fix: do not panic on property setters that take their
 value through *args

---
 pyo3_bindgen_engine/src/syntax/property.rs | 24 ++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 363d04d..7870bae 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -95,13 +95,25 @@ impl Property {
                                     .getattr(pyo3::intern!(py, "parameters"))?
                                     .call_method0(pyo3::intern!(py, "values"))?
                                     .iter()?
-                                    .nth(1)
-                                    .unwrap()?;
-                                let annotation = param.getattr(pyo3::intern!(py, "annotation"))?;
-                                if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
-                                    Type::Unknown
+                                    .nth(1);
+                                // The value might also be passed through `*args`
+                                if let Some(param) = param {
+                                    let param = param?;
+                                    let annotation =
+                                        param.getattr(pyo3::intern!(py, "annotation"))?;
+                                    let is_keyword = [3_u8, 4].contains(
+                                        &param.getattr(pyo3::intern!(py, "kind"))?.extract()?,
+                                    );
+                                    if is_keyword
+                                        || annotation
+                                            .is(&param.getattr(pyo3::intern!(py, "empty"))?)
+                                    {
+                                        Type::Unknown
+                                    } else {
+                                        annotation.try_into()?
+                                    }
                                 } else {
-                                    annotation.try_into()?
+                                    Type::Unknown
                                 }
                             };
                         } else {
-- 
2.43.0


From f3f1ca6f829833fa5eb0900a98ccacd9c48d9e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 36/57] fix: return IP addresses as a type that can be
 extracted from Python

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 33 ++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 26b0a06..6acbf5b 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -161,13 +161,14 @@ impl Type {
                 value_type,
             } => {
                 if Self::is_hash_map(&key_type, &value_type, local_types) {
-                    let key_type = key_type.into_rs(local_types).owned;
+                    let key_type = key_type.into_rs(local_types);
+                    let (owned_key, nested_key) = (key_type.owned, key_type.nested);
                     let OutputType { owned, nested, .. } = value_type.into_rs(local_types);
                     OutputType::new(
-                        quote!(::std::collections::HashMap<#key_type, #owned>),
-                        quote!(&::std::collections::HashMap<#key_type, #nested>),
+                        quote!(::std::collections::HashMap<#owned_key, #owned>),
+                        quote!(&::std::collections::HashMap<#nested_key, #nested>),
                     )
-                    .with_nested(quote!(::std::collections::HashMap<#key_type, #nested>))
+                    .with_nested(quote!(::std::collections::HashMap<#nested_key, #nested>))
                 } else {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyDict>),
@@ -177,10 +178,10 @@ impl Type {
             }
             Self::PyFrozenSet(inner_type) => {
                 if inner_type.is_hashable() {
-                    let inner_type = inner_type.into_rs(local_types).owned;
+                    let OutputType { owned, nested, .. } = inner_type.into_rs(local_types);
                     OutputType::new(
-                        quote!(::std::collections::HashSet<#inner_type>),
-                        quote!(&::std::collections::HashSet<#inner_type>),
+                        quote!(::std::collections::HashSet<#owned>),
+                        quote!(&::std::collections::HashSet<#nested>),
                     )
                     .with_nested(quote!(::pyo3::Bound<'py, ::pyo3::types::PyFrozenSet>))
                 } else {
@@ -220,11 +221,12 @@ impl Type {
             }
             Self::PySet(inner_type) => {
                 if inner_type.is_hashable() {
-                    let inner_type = inner_type.into_rs(local_types).owned;
+                    let OutputType { owned, nested, .. } = inner_type.into_rs(local_types);
                     OutputType::new(
-                        quote!(::std::collections::HashSet<#inner_type>),
-                        quote!(&::std::collections::HashSet<#inner_type>),
+                        quote!(::std::collections::HashSet<#owned>),
+                        quote!(&::std::collections::HashSet<#nested>),
                     )
+                    .with_nested(quote!(::std::collections::HashSet<#nested>))
                 } else {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PySet>),
@@ -256,8 +258,15 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::Ipv4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::Ipv6Addr)),
+            // Only `IpAddr` can be extracted from Python objects
+            Self::IpV4Addr => {
+                OutputType::new(quote!(::std::net::IpAddr), quote!(::std::net::Ipv4Addr))
+                    .with_nested(quote!(::std::net::Ipv4Addr))
+            }
+            Self::IpV6Addr => {
+                OutputType::new(quote!(::std::net::IpAddr), quote!(::std::net::Ipv6Addr))
+                    .with_nested(quote!(::std::net::Ipv6Addr))
+            }
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path))
                 .with_nested(quote!(::pyo3::Bound<'py, ::pyo3::types::PyAny>)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
-- 
2.43.0


From 902f4619b1ed4a28f115702c64dada3d1abf8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:34 +0000
Subject: [PATCH 37/57] fix: do not refer to types that are not generated

---
 pyo3_bindgen_engine/src/codegen.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 0e88c06..4a52622 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -399,22 +399,26 @@ impl Codegen {
     }
 
     fn get_all_types(&self) -> Vec<Path> {
-        fn get_types_recursive(input: &[Module]) -> Vec<Path> {
+        fn get_types_recursive(cfg: &Config, input: &[Module]) -> Vec<Path> {
             let mut types = Vec::new();
             for module in input {
-                types.extend(module.classes.iter().map(|class| class.name.clone()));
-                types.extend(
-                    module
-                        .type_vars
-                        .iter()
-                        .map(|type_var| type_var.name.clone()),
-                );
-                types.extend(get_types_recursive(&module.submodules));
+                if cfg.generate_classes {
+                    types.extend(module.classes.iter().map(|class| class.name.clone()));
+                }
+                if cfg.generate_type_vars {
+                    types.extend(
+                        module
+                            .type_vars
+                            .iter()
+                            .map(|type_var| type_var.name.clone()),
+                    );
+                }
+                types.extend(get_types_recursive(cfg, &module.submodules));
             }
             types
         }
 
-        get_types_recursive(&self.modules)
+        get_types_recursive(&self.cfg, &self.modules)
             .into_iter()
             .unique()
             .collect()
-- 
2.43.0


From 06b57430b753795049e64e88da960bf36587933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 38/57] fix: tell apart composite element types in annotations
 given as text

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 42 +++++++----------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index acfe92c..c16d6d0 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -502,36 +502,20 @@ fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
     //     merged_sequence.matches('[').count() == merged_sequence.matches(']').count()
     // });
 
-    let mut traversed_all_elements = false;
-    let mut start_index = 0;
-    'outer: while !traversed_all_elements {
-        traversed_all_elements = true;
-        'inner: for i in start_index..(sequence.len() - 1) {
-            let mut n_scopes = sequence[i].matches('[').count() as isize
-                - sequence[i].matches(']').count() as isize;
-            if n_scopes == 0 {
-                continue;
-            }
-            for j in (i + 1)..sequence.len() {
-                n_scopes += sequence[j].matches('[').count() as isize;
-                n_scopes -= sequence[j].matches(']').count() as isize;
-                if n_scopes == 0 {
-                    let mut new_element = sequence[i].clone();
-                    for relevant_element in sequence.iter().take(j + 1).skip(i + 1) {
-                        new_element = format!("{new_element}{separator}{relevant_element}");
-                    }
-                    sequence[i] = new_element;
-                    sequence.drain((i + 1)..=j);
-                    if j < sequence.len() - 1 {
-                        traversed_all_elements = false;
-                        start_index = i;
-                        break 'inner;
-                    } else {
-                        break 'outer;
-                    }
-                }
-            }
+    let mut i = 0;
+    while i < sequence.len() {
+        // Find the first following element that closes all brackets opened since the current element
+        let mut n_scopes = 0;
+        let end_index = (i..sequence.len()).find(|&j| {
+            n_scopes += sequence[j].matches('[').count() as isize;
+            n_scopes -= sequence[j].matches(']').count() as isize;
+            n_scopes == 0
+        });
+        if let Some(j) = end_index {
+            let new_element = sequence[i..=j].join(&separator.to_string());
+            sequence.splice(i..=j, [new_element]);
         }
+        i += 1;
     }
 }
 
-- 
2.43.0


From a6a573e551af0d235c128130ad76176d536f159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:19 +0000
Subject: [PATCH 39/57] fix: resolve names in annotations through the module of
 the annotated function

---
 pyo3_bindgen_engine/src/syntax/function.rs |   4 +-
 pyo3_bindgen_engine/src/syntax/module.rs   |  23 --
 pyo3_bindgen_engine/src/syntax/property.rs |   4 +-
 pyo3_bindgen_engine/src/typing/from_py.rs  | 273 ++++++++++++++++-----
 pyo3_bindgen_engine/src/typing/into_rs.rs  |   1 -
 5 files changed, 220 insertions(+), 85 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 32aea1d..2397dc5 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -79,7 +79,7 @@ impl Function {
                             if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
                                 Type::Unknown
                             } else {
-                                annotation.try_into()?
+                                Type::from_annotation_of(annotation, function)?
                             }
                         }
                     };
@@ -117,7 +117,7 @@ impl Function {
                 {
                     Type::Unknown
                 } else {
-                    return_annotation.try_into()?
+                    Type::from_annotation_of(return_annotation, function)?
                 }
             };
 
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index b17c20c..b28d2c3 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -356,29 +356,6 @@ impl Module {
                 let relative_path = self.name.relative_to(&path, false);
                 (path, relative_path)
             })
-            .chain(self.imports.iter().flat_map(|import| {
-                all_types
-                    .iter()
-                    .filter(|&path| path.starts_with(&import.origin))
-                    .cloned()
-                    .map(|path| {
-                        let imported_path = {
-                            if let Some(stripped_path) = path
-                                .to_py()
-                                .strip_prefix(&format!("{}.", import.origin.to_py()))
-                            {
-                                let mut path = Path::from_py(stripped_path);
-                                // Overwrite the first segment with the target name to support aliasing
-                                import.target.name().clone_into(&mut path[0]);
-                                path
-                            } else {
-                                import.target.name().to_owned().into()
-                            }
-                        };
-                        let relative_path = self.name.relative_to(&path, false);
-                        (imported_path, relative_path)
-                    })
-            }))
             .collect();
 
         // Generate the module content
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 7870bae..d1fc360 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -61,7 +61,7 @@ impl Property {
                             {
                                 Type::Unknown
                             } else {
-                                return_annotation.try_into()?
+                                Type::from_annotation_of(return_annotation, &getter)?
                             }
                         };
                     } else {
@@ -110,7 +110,7 @@ impl Property {
                                     {
                                         Type::Unknown
                                     } else {
-                                        annotation.try_into()?
+                                        Type::from_annotation_of(annotation, &setter)?
                                     }
                                 } else {
                                     Type::Unknown
diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index c16d6d0..82de783 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -7,38 +7,7 @@ use std::str::FromStr;
 impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
     type Error = PyBindgenError;
     fn try_from(value: pyo3::Bound<pyo3::types::PyAny>) -> Result<Self> {
-        match value {
-            // None -> Unknown type
-            none if none.is_none() => Ok(Self::Unknown),
-            // Handle PyType
-            t if t.is_instance_of::<pyo3::types::PyType>() => {
-                let x = t.downcast_into::<pyo3::types::PyType>().unwrap();
-                Self::try_from(x)
-            }
-            // Handle typing
-            typing
-                if typing
-                    .get_type()
-                    .getattr(pyo3::intern!(value.py(), "__module__"))?
-                    .to_string()
-                    == "typing" =>
-            {
-                Self::from_typing(typing)
-            }
-            // Handle everything else as string
-            _ => {
-                if value.is_instance_of::<pyo3::types::PyString>() {
-                    Self::from_str(
-                        value
-                            .downcast::<pyo3::types::PyString>()
-                            .unwrap()
-                            .to_str()?,
-                    )
-                } else {
-                    Self::from_str(&value.to_string())
-                }
-            }
-        }
+        Self::from_annotation(value, None)
     }
 }
 
@@ -103,20 +72,10 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
             t if is_type::<pyo3::types::PyType>(t) => Self::PyType,
 
             // Handle everything else by its qualified name
-            t => {
-                let py = t.py();
-                let module = t
-                    .getattr(pyo3::intern!(py, "__module__"))?
-                    .extract::<String>();
-                let name = t
-                    .getattr(pyo3::intern!(py, "__qualname__"))?
-                    .extract::<String>();
-                match (module, name) {
-                    (Ok(module), Ok(name)) if module == "builtins" => Self::from_str(&name)?,
-                    (Ok(module), Ok(name)) => Self::from_str(&format!("{module}.{name}"))?,
-                    _ => Self::Unknown,
-                }
-            }
+            t => match qualified_name_of_class(t) {
+                Some(name) => Self::from_str(&name)?,
+                None => Self::Unknown,
+            },
         })
     }
 }
@@ -126,7 +85,177 @@ fn is_type<T: pyo3::PyTypeInfo>(typ: &pyo3::Bound<pyo3::types::PyType>) -> bool
     typ.is(&T::type_object_bound(typ.py()))
 }
 
+/// Get the qualified name under which the class itself (and not another class of the same name) can be accessed.
+fn qualified_name_of_class(class: &pyo3::Bound<pyo3::types::PyType>) -> Option<String> {
+    let py = class.py();
+    let get_name = |attr_name| class.getattr(attr_name).ok()?.extract::<String>().ok();
+    let module_name = get_name("__module__")?;
+    let name = get_name("__qualname__")?;
+    if module_name == "builtins" {
+        return Some(name);
+    }
+
+    let module = py
+        .import_bound(pyo3::intern!(py, "sys"))
+        .and_then(|sys| sys.getattr(pyo3::intern!(py, "modules")))
+        .and_then(|modules| modules.get_item(&module_name))
+        .ok()?;
+    let is_named = name
+        .split('.')
+        .try_fold(module.clone(), |object, segment| object.getattr(segment))
+        .is_ok_and(|object| object.is(class));
+    if is_named && !name.contains('.') {
+        return Some(format!("{module_name}.{name}"));
+    }
+
+    // The class might be available (also) under a different name, which is preferred over its nested name
+    module
+        .getattr(pyo3::intern!(py, "__dict__"))
+        .and_then(|dict| Ok(dict.downcast_into::<pyo3::types::PyDict>()?))
+        .ok()?
+        .iter()
+        .filter(|(_, object)| object.is(class))
+        .filter_map(|(alias, _)| alias.extract::<String>().ok())
+        .min_by_key(|alias| (alias.starts_with('_'), alias.clone()))
+        .or_else(|| is_named.then_some(name))
+        .map(|name| format!("{module_name}.{name}"))
+}
+
+/// Replace all names in the text of an annotation by the qualified names of what they denote in the namespace.
+fn qualify_names(text: &str, namespace: &pyo3::Bound<pyo3::types::PyDict>) -> String {
+    let is_part_of_name = |c: char| c.is_alphanumeric() || c == '_' || c == '.';
+    let mut output = String::with_capacity(text.len());
+    let mut quote = None;
+    let mut remaining = text;
+    while let Some(c) = remaining.chars().next() {
+        let end = if quote.is_none() && is_part_of_name(c) {
+            remaining
+                .find(|c| !is_part_of_name(c))
+                .unwrap_or(remaining.len())
+        } else {
+            // Names inside of string literals are left as they are
+            if c == '"' || c == '\'' {
+                quote = match quote {
+                    None => Some(c),
+                    Some(q) if q == c => None,
+                    q => q,
+                };
+            }
+            c.len_utf8()
+        };
+        let token = &remaining[..end];
+        match qualify_name(token, namespace) {
+            Some(name) if quote.is_none() => output.push_str(&name),
+            _ => output.push_str(token),
+        }
+        remaining = &remaining[end..];
+    }
+    output
+}
+
+/// Get the qualified name of what the name denotes in the namespace (if it is known to denote something).
+fn qualify_name(name: &str, namespace: &pyo3::Bound<pyo3::types::PyDict>) -> Option<String> {
+    const NOT_A_TYPE: &str = "Any";
+
+    let segments = name.split('.').collect_vec();
+    let mut object = namespace.get_item(segments[0]).ok()??;
+    let mut qualified_name = None;
+    for i in 1..=segments.len() {
+        if let Ok(module) = object.downcast::<pyo3::types::PyModule>() {
+            qualified_name = module.name().ok().map(|module_name| {
+                std::iter::once(module_name.to_string().as_str())
+                    .chain(segments[i..].iter().copied())
+                    .join(".")
+            });
+        } else if i < segments.len() && !object.is_instance_of::<pyo3::types::PyType>() {
+            return Some(NOT_A_TYPE.to_owned());
+        }
+        match segments.get(i).map(|segment| object.getattr(*segment)) {
+            None => break,
+            Some(Ok(attr)) => object = attr,
+            // Modules might not be imported yet
+            Some(Err(_)) if object.is_instance_of::<pyo3::types::PyModule>() => {
+                return qualified_name;
+            }
+            Some(Err(_)) => return Some(NOT_A_TYPE.to_owned()),
+        }
+    }
+    if let Ok(class) = object.downcast::<pyo3::types::PyType>() {
+        Some(qualified_name_of_class(class).unwrap_or_else(|| NOT_A_TYPE.to_owned()))
+    } else {
+        qualified_name
+    }
+}
+
 impl Type {
+    /// Parse the annotation of a function, whose namespace defines the names in annotations given as text.
+    pub fn from_annotation_of(
+        annotation: pyo3::Bound<pyo3::types::PyAny>,
+        function: &pyo3::Bound<pyo3::types::PyAny>,
+    ) -> Result<Self> {
+        let py = function.py();
+        let unwrap = py
+            .import_bound(pyo3::intern!(py, "inspect"))?
+            .getattr(pyo3::intern!(py, "unwrap"))?;
+        let get_namespace = |function: &pyo3::Bound<pyo3::types::PyAny>| {
+            unwrap
+                .call1((function,))
+                .and_then(|function| function.getattr(pyo3::intern!(py, "__globals__")))
+        };
+        let namespace = get_namespace(function)
+            // Objects of `functools.partial` use the namespace of their function
+            .or_else(|_| get_namespace(&function.getattr(pyo3::intern!(py, "func"))?))
+            .and_then(|namespace| Ok(namespace.downcast_into::<pyo3::types::PyDict>()?))
+            .ok();
+        Self::from_annotation(annotation, namespace.as_ref())
+    }
+
+    fn from_annotation(
+        value: pyo3::Bound<pyo3::types::PyAny>,
+        namespace: Option<&pyo3::Bound<pyo3::types::PyDict>>,
+    ) -> Result<Self> {
+        match value {
+            // None -> Unknown type
+            none if none.is_none() => Ok(Self::Unknown),
+            // Handle PyType
+            t if t.is_instance_of::<pyo3::types::PyType>() => {
+                let x = t.downcast_into::<pyo3::types::PyType>().unwrap();
+                Self::try_from(x)
+            }
+            // Handle typing
+            typing
+                if ["typing", "types"].contains(
+                    &typing
+                        .get_type()
+                        .getattr(pyo3::intern!(value.py(), "__module__"))?
+                        .to_string()
+                        .as_str(),
+                ) =>
+            {
+                Self::from_typing(typing, namespace)
+            }
+            // Handle everything else as string
+            _ => {
+                if value.is_instance_of::<pyo3::types::PyString>() {
+                    let text = value
+                        .downcast::<pyo3::types::PyString>()
+                        .unwrap()
+                        .to_str()?;
+                    Self::from_text(text, namespace)
+                } else {
+                    Self::from_str(&value.to_string())
+                }
+            }
+        }
+    }
+
+    fn from_text(text: &str, namespace: Option<&pyo3::Bound<pyo3::types::PyDict>>) -> Result<Self> {
+        match namespace {
+            Some(namespace) => Self::from_str(&qualify_names(text, namespace)),
+            None => Self::from_str(text),
+        }
+    }
+
     fn from_union(inner_types: Vec<Self>) -> Self {
         match inner_types.as_slice() {
             [inner_type, Self::PyNone] | [Self::PyNone, inner_type] => {
@@ -136,18 +265,36 @@ impl Type {
         }
     }
 
-    fn from_typing(value: pyo3::Bound<pyo3::types::PyAny>) -> Result<Self> {
+    fn from_typing(
+        value: pyo3::Bound<pyo3::types::PyAny>,
+        namespace: Option<&pyo3::Bound<pyo3::types::PyDict>>,
+    ) -> Result<Self> {
         let py = value.py();
-        debug_assert_eq!(
-            value
-                .get_type()
-                .getattr(pyo3::intern!(py, "__module__"))?
-                .to_string(),
-            "typing"
-        );
 
-        if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
-            let wrapping_type = Self::try_from(wrapping_type)?;
+        // Forward references are annotations given as text
+        if let Ok(text) = value
+            .getattr(pyo3::intern!(py, "__forward_arg__"))
+            .and_then(|text| text.extract::<String>())
+        {
+            return Self::from_text(&text, namespace);
+        }
+
+        // Unpacked elements are not a type
+        if value
+            .getattr(pyo3::intern!(py, "__unpacked__"))
+            .is_ok_and(|unpacked| unpacked.is_truthy().unwrap_or_default())
+        {
+            return Self::from_str(&value.to_string());
+        }
+
+        let wrapping_type = value.getattr(pyo3::intern!(py, "__origin__"));
+        let is_union = wrapping_type.is_err() && value.get_type().name()? == "UnionType";
+        if is_union || wrapping_type.is_ok() {
+            let wrapping_type = if is_union {
+                Self::Union(vec![Self::Unknown])
+            } else {
+                Self::from_annotation(wrapping_type?, namespace)?
+            };
 
             // Arguments of other annotations (e.g. the values of `Literal`) are not types
             if matches!(wrapping_type, Self::Other(..)) {
@@ -169,9 +316,21 @@ impl Type {
                 {
                     let inner_types = inner_types
                         .iter()
-                        .map(Self::try_from)
+                        .map(|inner_type| Self::from_annotation(inner_type, namespace))
                         .collect::<Result<Vec<_>>>()?;
                     match wrapping_type {
+                        // The number of arguments is not checked by Python
+                        Self::PyDict { .. } | Self::PyMapping { .. } if inner_types.len() != 2 => {
+                            wrapping_type
+                        }
+                        Self::PyFrozenSet(..)
+                        | Self::PyIterable(..)
+                        | Self::PyList(..)
+                        | Self::PySet(..)
+                            if inner_types.len() != 1 =>
+                        {
+                            wrapping_type
+                        }
                         Self::Union(..) => Self::from_union(inner_types),
                         Self::Optional(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 6acbf5b..802c2ce 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -1,6 +1,5 @@
 use super::Type;
 use crate::syntax::Path;
-use itertools::Itertools;
 use quote::quote;
 use rustc_hash::FxHashMap as HashMap;
 use std::rc::Rc;
-- 
2.43.0


From 740688c2c41767492619d00fa3ffc2d529528cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 40/57] fix: treat instances of SimpleNamespace as properties
 instead of as types

---
 pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index c1bfbd8..181d81a 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -59,7 +59,12 @@ impl AttributeVariant {
             .is_truthy()?;
         let is_closure =
             attr_type_module.to_py().as_str() == "functools" && attr_type_name.as_py() == "partial";
-        let is_type = ["typing", "types"].contains(&attr_type_module.to_py().as_str());
+        // Note: Other types defined in "types" (e.g. "SimpleNamespace") have ordinary values as their instances
+        let is_type = match attr_type_module.to_py().as_str() {
+            "typing" => true,
+            "types" => ["GenericAlias", "UnionType"].contains(&attr_type_name.as_py()),
+            _ => false,
+        };
 
         // Determine if the attribute is imported
         // Note: Some decorators might make a class look external, but they tend to include "<locals>" in their name
-- 
2.43.0


From 2029618a7f2b54e616bf98e13663b37aca94a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 41/57] fix: do not generate accessors of the slot wrappers
 __init__ and __call__

---
 pyo3_bindgen_engine/src/syntax/class.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 96b3b76..da5b405 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -104,6 +104,9 @@ impl Class {
                     AttributeVariant::TypeVar => {
                         eprintln!("WARN: TypesVars are not supported in classes: '{attr_name}'. Bindings will not be generated.");
                     }
+                    // Classes that do not define these methods provide slot wrappers instead
+                    AttributeVariant::Property
+                        if !cfg.is_attr_allowed(&attr_name, &attr_module, &attr_type) => {}
                     AttributeVariant::Property => {
                         let property = Property::parse(
                             cfg,
-- 
2.43.0


From 0cfab931a004e8d91b31e73b38eae9c44f74121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 42/57] fix: do not re-export items whose generation is
 switched off

---
 pyo3_bindgen_engine/src/syntax/module.rs | 77 ++++++++++++++++--------
 1 file changed, 51 insertions(+), 26 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index b28d2c3..884b44d 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -368,7 +368,7 @@ impl Module {
                     .filter(|import| {
                         top_level_modules
                             .iter()
-                            .any(|module| module.check_path_exists_recursive(&import.origin, false))
+                            .any(|module| module.check_path_exists_recursive(cfg, &import.origin))
                     })
                     .map(|import| import.generate(cfg))
                     .collect::<Result<proc_macro2::TokenStream>>()?,
@@ -376,7 +376,7 @@ impl Module {
         }
         // Prelude
         if cfg.generate_preludes {
-            module_content.extend(self.generate_prelude());
+            module_content.extend(self.generate_prelude(cfg)?);
         }
         // Type variables
         if cfg.generate_type_vars {
@@ -663,7 +663,7 @@ impl Module {
         index_attr_names
     }
 
-    fn generate_prelude(&self) -> Result<proc_macro2::TokenStream> {
+    fn generate_prelude(&self, cfg: &Config) -> Result<proc_macro2::TokenStream> {
         // Skip if the prelude is empty
         if self.prelude.is_empty() {
             return Ok(proc_macro2::TokenStream::new());
@@ -674,14 +674,15 @@ impl Module {
             .prelude
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
-            .filter(|&ident| self.check_ident_exists_immediate(ident, false))
+            .filter(|&ident| self.check_ident_generated_immediate(cfg, ident))
+            // Items with names that are not valid in Rust are generated under a different name
+            .filter_map(|ident| syn::Ident::try_from(ident).ok())
             .map(|ident| {
-                let ident: syn::Ident = ident.try_into()?;
-                Ok(quote::quote! {
+                quote::quote! {
                     #ident,
-                })
+                }
             })
-            .collect::<Result<proc_macro2::TokenStream>>()?;
+            .collect::<proc_macro2::TokenStream>();
 
         // Return empty prelude if there are no exports
         if exports.is_empty() {
@@ -696,7 +697,7 @@ impl Module {
                     "call{}",
                     (i > 0).then(|| i.to_string()).unwrap_or_default()
                 ));
-                if !self.check_ident_exists_immediate(&ident, true) {
+                if !self.check_ident_exists_immediate(&ident) {
                     break ident;
                 }
                 i += 1;
@@ -710,28 +711,52 @@ impl Module {
         })
     }
 
-    fn check_path_exists_recursive(&self, path: &Path, consider_imports: bool) -> bool {
-        (consider_imports && self.imports.iter().any(|import| import.target == *path))
-            || self.submodules.iter().any(|module| module.name == *path)
-            || self.classes.iter().any(|class| class.name == *path)
-            || self.functions.iter().any(|function| function.name == *path)
-            || self.type_vars.iter().any(|type_var| type_var.name == *path)
-            || self
-                .properties
-                .iter()
-                .any(|property| property.name == *path)
+    /// Check if the path leads to an item that is generated with the given configuration.
+    fn check_path_exists_recursive(&self, cfg: &Config, path: &Path) -> bool {
+        self.submodules.iter().any(|module| module.name == *path)
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name == *path))
+            || (cfg.generate_functions
+                && self.functions.iter().any(|function| function.name == *path))
+            || (cfg.generate_type_vars
+                && self.type_vars.iter().any(|type_var| type_var.name == *path))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name == *path))
             || self
                 .submodules
                 .iter()
-                .any(|module| module.check_path_exists_recursive(path, consider_imports))
+                .any(|module| module.check_path_exists_recursive(cfg, path))
     }
 
-    fn check_ident_exists_immediate(&self, ident: &Ident, consider_imports: bool) -> bool {
-        (consider_imports
-            && self
-                .imports
-                .iter()
-                .any(|import| import.target.name() == ident))
+    /// Check if the module contains an item of that name that is generated with the given configuration.
+    fn check_ident_generated_immediate(&self, cfg: &Config, ident: &Ident) -> bool {
+        self.submodules
+            .iter()
+            .any(|module| module.name.name() == ident)
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name.name() == ident))
+            || (cfg.generate_functions
+                && self
+                    .functions
+                    .iter()
+                    .any(|function| function.name.name() == ident))
+            || (cfg.generate_type_vars
+                && self
+                    .type_vars
+                    .iter()
+                    .any(|type_var| type_var.name.name() == ident))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name.name() == ident))
+    }
+
+    fn check_ident_exists_immediate(&self, ident: &Ident) -> bool {
+        self.imports
+            .iter()
+            .any(|import| import.target.name() == ident)
             || self
                 .submodules
                 .iter()
-- 
2.43.0


From ccea7f6a4ecdbbfc622329dcde44f35bb62cab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 43/57] fix: do not re-export another attribute than the
 imported one

---
 pyo3_bindgen_engine/src/syntax/import.rs |  4 ++++
 pyo3_bindgen_engine/src/syntax/module.rs | 27 +++++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/import.rs b/pyo3_bindgen_engine/src/syntax/import.rs
index a3e3b5b..121945b 100644
--- a/pyo3_bindgen_engine/src/syntax/import.rs
+++ b/pyo3_bindgen_engine/src/syntax/import.rs
@@ -22,6 +22,10 @@ impl Import {
         self.import_type == ImportType::ExternalImport
     }
 
+    pub fn is_submodule_reexport(&self) -> bool {
+        self.import_type == ImportType::SubmoduleReexport
+    }
+
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
         // For now, we only generate imports for submodule reexports
         if self.import_type != ImportType::SubmoduleReexport {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 884b44d..3703565 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -143,12 +143,18 @@ impl Module {
                             return Ok(());
                         }
 
+                        // Make sure that the origin of a re-export is the attribute itself
+                        // Note: `__module__` and `__name__` of an attribute might also lead elsewhere, e.g. if it wraps another one
+                        let import = Import::new(origin, attr_name_full);
+                        if import.is_submodule_reexport()
+                            && !Self::is_origin_of_attr(&import.origin, &attr)
+                        {
+                            return Ok(());
+                        }
+
                         // Determine if the import overwrites a submodule
                         let import_overwrites_submodule = submodules_to_process.contains(&attr_name);
 
-                        // Generate the import
-                        let import = Import::new(origin, attr_name_full);
-
                         // Add the import to the appropriate list
                         if import_overwrites_submodule {
                             conflicting_imports.push(import);
@@ -571,6 +577,21 @@ impl Module {
             .collect()
     }
 
+    /// Check if importing the origin yields the given attribute.
+    fn is_origin_of_attr(origin: &Path, attr: &pyo3::Bound<pyo3::PyAny>) -> bool {
+        let py = attr.py();
+        if attr.downcast::<pyo3::types::PyModule>().is_ok() {
+            py.import_bound(origin.to_py().as_str())
+                .is_ok_and(|module| module.is(attr))
+        } else {
+            origin.parent().is_some_and(|module| {
+                py.import_bound(module.to_py().as_str())
+                    .and_then(|module| module.getattr(origin.name().as_py()))
+                    .is_ok_and(|original| original.is(attr))
+            })
+        }
+    }
+
     fn extract_prelude(
         cfg: &Config,
         module: &pyo3::Bound<pyo3::types::PyModule>,
-- 
2.43.0


From d2a38bed3810c26b3782ff588b5c23a185915c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 44/57] fix: skip imports and type variables whose names are
 invalid in Rust

---
 pyo3_bindgen_engine/src/syntax/import.rs   | 9 ++++++++-
 pyo3_bindgen_engine/src/syntax/type_var.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/import.rs b/pyo3_bindgen_engine/src/syntax/import.rs
index 121945b..f7ab0d2 100644
--- a/pyo3_bindgen_engine/src/syntax/import.rs
+++ b/pyo3_bindgen_engine/src/syntax/import.rs
@@ -57,7 +57,14 @@ impl Import {
             let maybe_alias = if self.origin.name() == self.target.name() {
                 proc_macro2::TokenStream::new()
             } else {
-                let alias: syn::Ident = self.target.name().try_into()?;
+                let Ok(alias): std::result::Result<syn::Ident, _> = self.target.name().try_into()
+                else {
+                    eprintln!(
+                        "WARN: Import '{}' has an invalid name in Rust. Bindings will not be generated.",
+                        self.target
+                    );
+                    return Ok(proc_macro2::TokenStream::new());
+                };
                 quote::quote! { as #alias }
             };
 
diff --git a/pyo3_bindgen_engine/src/syntax/type_var.rs b/pyo3_bindgen_engine/src/syntax/type_var.rs
index 7813c58..4723e72 100644
--- a/pyo3_bindgen_engine/src/syntax/type_var.rs
+++ b/pyo3_bindgen_engine/src/syntax/type_var.rs
@@ -12,7 +12,14 @@ impl TypeVar {
     }
 
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
-        let typevar_ident: syn::Ident = self.name.name().try_into()?;
+        let Ok(typevar_ident): std::result::Result<syn::Ident, _> = self.name.name().try_into()
+        else {
+            eprintln!(
+                "WARN: Type variable '{}' has an invalid name in Rust. Bindings will not be generated.",
+                self.name
+            );
+            return Ok(proc_macro2::TokenStream::new());
+        };
         Ok(quote::quote! {
             pub type #typevar_ident = ::pyo3::types::PyAny;
         })
-- 
2.43.0


From e29069ac18033d1d8434dc4b07a18d0cc571607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 45/57] fix: list variables of the module in its prelude

---
 pyo3_bindgen_engine/src/syntax/module.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 3703565..f7d2579 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -660,7 +660,8 @@ impl Module {
                                 .map(|a| a.to_string())
                                 .unwrap_or_default(),
                         );
-                        attr_module.starts_with(&root_module)
+                        // Note: Values of variables do not know the module where they are defined
+                        attr_module.is_empty() || attr_module.starts_with(&root_module)
                     });
                     is_reexport
                 } else {
-- 
2.43.0


From c33b0265320461ccc3dea9809e39372e286240c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 46/57] fix: generate only one of a submodule and the member of
 the same name

---
 pyo3_bindgen_engine/src/codegen.rs       |  3 +++
 pyo3_bindgen_engine/src/syntax/module.rs | 33 +++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 4a52622..afcac49 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -295,6 +295,9 @@ impl Codegen {
         // Merge duplicate modules in the tree
         self.merge_duplicate_modules();
 
+        // Explicitly requested modules might have the same name as other members of their package
+        Module::resolve_name_clashes(&mut self.modules);
+
         Ok(())
     }
 
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index f7d2579..e74f4b6 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -64,6 +64,15 @@ impl Module {
             HashSet::default()
         };
 
+        // Import all submodules because they become attributes of their package only once they are imported
+        // Note: Otherwise, the bindings would depend on what happens to be imported already
+        if cfg.traverse_submodules {
+            for submodule_name in &submodules_to_process {
+                let submodule_name = name.join(&submodule_name.clone().into());
+                let _ = py.import_bound(submodule_name.to_py().as_str());
+            }
+        }
+
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
             Self::extract_prelude(cfg, module, &name, &submodules_to_process)
@@ -157,7 +166,12 @@ impl Module {
 
                         // Add the import to the appropriate list
                         if import_overwrites_submodule {
-                            conflicting_imports.push(import);
+                            if import.origin.starts_with(&import.target) {
+                                conflicting_imports.push(import);
+                            } else {
+                                submodules_to_process.remove(&attr_name);
+                                imports.push(import);
+                            }
                         } else {
                             imports.push(import);
                         }
@@ -171,9 +185,11 @@ impl Module {
                             Class::parse(cfg, attr.downcast().unwrap_or_else(|_| unreachable!(
                                 "The attribute is known to be a class at this point"
                             )), attr_name_full)?;
+                        submodules_to_process.remove(&attr_name);
                         classes.push(class);
                     }
                     AttributeVariant::TypeVar => {
+                        submodules_to_process.remove(&attr_name);
                         let type_var = TypeVar::new(attr_name_full);
                         type_vars.push(type_var);
                     }
@@ -540,6 +556,21 @@ impl Module {
         Ok(output)
     }
 
+    /// Remove members that cannot be generated because there is a submodule of the same name.
+    pub fn resolve_name_clashes(modules: &mut [Self]) {
+        for module in modules {
+            let submodules = &module.submodules;
+            let is_unique =
+                |name: &Path| !submodules.iter().any(|submodule| submodule.name == *name);
+            module.imports.retain(|import| is_unique(&import.target));
+            module.classes.retain(|class| is_unique(&class.name));
+            module
+                .type_vars
+                .retain(|type_var| is_unique(&type_var.name));
+            Self::resolve_name_clashes(&mut module.submodules);
+        }
+    }
+
     fn extract_submodules(
         cfg: &Config,
         module: &pyo3::Bound<pyo3::types::PyModule>,
-- 
2.43.0


From d65c1b3d535f18dfe13256277b8e1a92f10f4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 47/57] fix: never let docstrings form a code block or an
 invalid doc comment

---
 pyo3_bindgen_engine/src/utils/text.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/text.rs b/pyo3_bindgen_engine/src/utils/text.rs
index e381431..ca15595 100644
--- a/pyo3_bindgen_engine/src/utils/text.rs
+++ b/pyo3_bindgen_engine/src/utils/text.rs
@@ -13,11 +13,19 @@ pub fn format_docstring(docstring: &mut String) {
         docstring.truncate(docstring.trim_end().len());
     }
 
+    // Replace characters that change the visible direction of text (denied in Rust doc comments by default)
+    *docstring = docstring.replace(
+        |c: char| matches!(c, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}'),
+        " ",
+    );
+
     // Remove duplicate whitespace characters (except line breaks)
-    conditioned_dedup(docstring, |c| c.is_whitespace() && c != '\n');
+    *docstring = docstring.replace(|c: char| c.is_whitespace() && c != '\n', " ");
+    conditioned_dedup(docstring, |c| c == ' ');
 
-    // Remove duplicate backticks to avoid potential doctests
+    // Remove duplicate backticks and tildes to avoid potential doctests
     conditioned_dedup(docstring, |c| c == '`');
+    conditioned_dedup(docstring, |c| c == '~');
 
     // If the docstring has multiple lines, make sure it is properly formatted
     if docstring.contains('\n') {
-- 
2.43.0


From 7f1a8a0fc7184bd3f262fb1f1db277aa4ce775ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 48/57] fix: take documentation only from docstrings and
 survive raising ones

---
 pyo3_bindgen_engine/src/syntax/class.rs    |  9 +--------
 pyo3_bindgen_engine/src/syntax/function.rs |  9 +--------
 pyo3_bindgen_engine/src/syntax/module.rs   | 13 ++----------
 pyo3_bindgen_engine/src/syntax/property.rs | 23 ++--------------------
 pyo3_bindgen_engine/src/utils/attr.rs      | 12 +++++++++++
 5 files changed, 18 insertions(+), 48 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index da5b405..7c99158 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -122,14 +122,7 @@ impl Class {
             })?;
 
         // Extract the docstring of the class
-        let docstring = {
-            let docstring = class.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::attr::extract_docstring(class);
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 2397dc5..1937a8e 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -41,14 +41,7 @@ impl Function {
         let py = function.py();
 
         // Extract the docstring of the function
-        let docstring = {
-            let docstring = function.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::attr::extract_docstring(function);
 
         // Extract the signature of the function
         if let Ok(function_signature) = py
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index e74f4b6..3605ce9 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -28,10 +28,8 @@ impl Module {
         // Note: The parent packages of a module parsed from its source code do not have to exist
         let docstring = py
             .import_bound(name.to_py().as_str())
-            .and_then(|module| module.getattr(pyo3::intern!(py, "__doc__")))
-            .map(|docstring| docstring.to_string())
             .ok()
-            .filter(|docstring| !docstring.is_empty() && docstring != "None");
+            .and_then(|module| crate::utils::attr::extract_docstring(&module));
 
         Self {
             name,
@@ -305,14 +303,7 @@ impl Module {
         };
 
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::attr::extract_docstring(module);
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index d1fc360..d0e7cd0 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -68,18 +68,7 @@ impl Property {
                         annotation = Type::try_from(typ)?;
                     }
 
-                    // Update the docstring if it is empty
-                    if docstring.is_none() {
-                        docstring = {
-                            let docstring =
-                                getter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
-                    }
+                    docstring = crate::utils::attr::extract_docstring(property);
                 } else {
                     annotation = Type::try_from(typ)?;
                 }
@@ -120,15 +109,7 @@ impl Property {
                             setter_annotation = Type::Unknown;
                         }
 
-                        setter_docstring = {
-                            let docstring =
-                                setter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        setter_docstring = crate::utils::attr::extract_docstring(&setter);
 
                         if docstring.is_none() {
                             // Update the getter docstring to match setter docstring if it is still empty
diff --git a/pyo3_bindgen_engine/src/utils/attr.rs b/pyo3_bindgen_engine/src/utils/attr.rs
index a1fe617..687bdf4 100644
--- a/pyo3_bindgen_engine/src/utils/attr.rs
+++ b/pyo3_bindgen_engine/src/utils/attr.rs
@@ -24,3 +24,15 @@ pub fn list_attr_names(obj: &Bound<PyAny>) -> Result<Vec<Ident>> {
         .unique()
         .collect())
 }
+
+/// Extract the docstring of the given object.
+///
+/// Note: Any other value than a string is not a docstring and it must not be converted to one.
+pub fn extract_docstring(obj: &Bound<PyAny>) -> Option<String> {
+    obj.getattr(pyo3::intern!(obj.py(), "__doc__"))
+        .ok()?
+        .downcast::<pyo3::types::PyString>()
+        .ok()
+        .map(|docstring| docstring.to_string_lossy().into_owned())
+        .filter(|docstring| !docstring.is_empty())
+}
-- 
2.43.0


From 4f2a56abf980c60e431e801c0ee184c7713c2147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 49/57] fix: convert nested dictionaries in linear instead of
 exponential time

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 802c2ce..6b77eea 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -26,7 +26,7 @@ impl Type {
             | Self::PyMapping {
                 key_type,
                 value_type,
-            } if !Self::is_hash_map(key_type, value_type, local_types) => {
+            } if !Self::is_hash_map(key_type, &value_type.clone().into_rs(local_types)) => {
                 quote! {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
@@ -104,10 +104,9 @@ impl Type {
     }
 
     /// Check if a dictionary can be represented by a Rust hash map.
-    fn is_hash_map(key_type: &Self, value_type: &Self, local_types: &HashMap<Path, Path>) -> bool {
-        let OutputType { owned, nested, .. } = value_type.clone().into_rs(local_types);
+    fn is_hash_map(key_type: &Self, value_type: &OutputType) -> bool {
         key_type.is_hashable()
-            && [owned, nested]
+            && [&value_type.owned, &value_type.nested]
                 .iter()
                 .all(|value_type| !value_type.to_string().contains("PyAny"))
     }
@@ -159,10 +158,12 @@ impl Type {
                 key_type,
                 value_type,
             } => {
-                if Self::is_hash_map(&key_type, &value_type, local_types) {
+                // Note: The value type is converted only once, as nested dictionaries would take exponential time otherwise
+                let value_type = value_type.into_rs(local_types);
+                if Self::is_hash_map(&key_type, &value_type) {
                     let key_type = key_type.into_rs(local_types);
                     let (owned_key, nested_key) = (key_type.owned, key_type.nested);
-                    let OutputType { owned, nested, .. } = value_type.into_rs(local_types);
+                    let OutputType { owned, nested, .. } = value_type;
                     OutputType::new(
                         quote!(::std::collections::HashMap<#owned_key, #owned>),
                         quote!(&::std::collections::HashMap<#nested_key, #nested>),
-- 
2.43.0


From 671f42a40ea46874266f6b08f2800e94b6b7f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 50/57] fix: do not fail on annotations, parameters and
 properties that cannot be expressed in Rust

---
 .../src/syntax/common/ident.rs                |  1 -
 pyo3_bindgen_engine/src/syntax/common/path.rs |  1 -
 pyo3_bindgen_engine/src/syntax/function.rs    | 40 ++++++++++---------
 pyo3_bindgen_engine/src/syntax/property.rs    | 30 +++++++++-----
 pyo3_bindgen_engine/src/typing/from_py.rs     | 13 +++---
 5 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index b6fda6a..379f4ff 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -9,7 +9,6 @@ impl Ident {
     }
 
     pub fn from_py(value: &str) -> Self {
-        debug_assert!(!value.is_empty());
         Self(Self::py_to_rs(value))
     }
 
diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index c501728..909a683 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -27,7 +27,6 @@ impl Path {
         if value.is_empty() {
             return Self::default();
         }
-        debug_assert!(!value.contains("::"), "Invalid Python path: {value}");
         Self {
             leading_colon: false,
             segments: std::iter::repeat(Ident::from_rs("super"))
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 1937a8e..b268e69 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -58,9 +58,9 @@ impl Function {
 
                     let name =
                         Ident::from_py(&param.getattr(pyo3::intern!(py, "name"))?.to_string());
-                    let kind = ParameterKind::from(
+                    let kind = ParameterKind::try_from(
                         param.getattr(pyo3::intern!(py, "kind"))?.extract::<u8>()?,
-                    );
+                    )?;
                     let annotation = match kind {
                         ParameterKind::VarPositional => Type::PyTuple(vec![Type::Unknown]),
                         ParameterKind::VarKeyword => Type::Optional(Box::new(Type::PyDict {
@@ -72,7 +72,7 @@ impl Function {
                             if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
                                 Type::Unknown
                             } else {
-                                Type::from_annotation_of(annotation, function)?
+                                Type::from_annotation_of(annotation, function)
                             }
                         }
                     };
@@ -110,7 +110,7 @@ impl Function {
                 {
                     Type::Unknown
                 } else {
-                    Type::from_annotation_of(return_annotation, function)?
+                    Type::from_annotation_of(return_annotation, function)
                 }
             };
 
@@ -269,14 +269,13 @@ impl Function {
                 }
             };
 
-            // If any of the parameters is still called 'self', do not handle the parameters
-            if parameters
-                .iter()
-                .any(|param| param.name.as_rs() == "r#self")
-            {
+            // If any of the parameters is still called 'self' or its name cannot be a part of a Rust ident, do not handle the parameters
+            if parameters.iter().any(|param| {
+                param.name.as_rs() == "r#self"
+                    || syn::Ident::try_from(Ident::from_py(&format!("p_{}", param.name))).is_err()
+            }) {
                 eprintln!(
-                    "WARN: Method '{name}' has a non-first parameter named 'self'. All parameters are replaced with '*args' and '**kwargs'.",
-
+                    "WARN: Function '{name}' has a non-first parameter named 'self' or with an invalid name. All parameters are replaced with '*args' and '**kwargs'.",
                 );
                 parameters = vec![
                     Parameter {
@@ -735,15 +734,18 @@ enum ParameterKind {
     VarKeyword,
 }
 
-impl From<u8> for ParameterKind {
-    fn from(kind: u8) -> Self {
+impl TryFrom<u8> for ParameterKind {
+    type Error = crate::PyBindgenError;
+    fn try_from(kind: u8) -> Result<Self> {
         match kind {
-            0 => Self::PositionalOnly,
-            1 => Self::PositionalOrKeyword,
-            2 => Self::VarPositional,
-            3 => Self::KeywordOnly,
-            4 => Self::VarKeyword,
-            _ => unreachable!(),
+            0 => Ok(Self::PositionalOnly),
+            1 => Ok(Self::PositionalOrKeyword),
+            2 => Ok(Self::VarPositional),
+            3 => Ok(Self::KeywordOnly),
+            4 => Ok(Self::VarKeyword),
+            _ => Err(crate::PyBindgenError::ParseError(format!(
+                "Unknown kind of parameter: {kind}"
+            ))),
         }
     }
 }
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index d0e7cd0..91d267b 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -41,7 +41,7 @@ impl Property {
         match owner {
             PropertyOwner::Module => {
                 is_mutable = true;
-                annotation = Type::try_from(typ)?;
+                annotation = Type::try_from(typ).unwrap_or(Type::Unknown);
                 setter_annotation = annotation.clone();
                 docstring.clone_from(&setter_docstring);
             }
@@ -61,16 +61,16 @@ impl Property {
                             {
                                 Type::Unknown
                             } else {
-                                Type::from_annotation_of(return_annotation, &getter)?
+                                Type::from_annotation_of(return_annotation, &getter)
                             }
                         };
                     } else {
-                        annotation = Type::try_from(typ)?;
+                        annotation = Type::try_from(typ).unwrap_or(Type::Unknown);
                     }
 
                     docstring = crate::utils::attr::extract_docstring(property);
                 } else {
-                    annotation = Type::try_from(typ)?;
+                    annotation = Type::try_from(typ).unwrap_or(Type::Unknown);
                 }
 
                 match property.getattr(pyo3::intern!(py, "fset")) {
@@ -99,7 +99,7 @@ impl Property {
                                     {
                                         Type::Unknown
                                     } else {
-                                        Type::from_annotation_of(annotation, &setter)?
+                                        Type::from_annotation_of(annotation, &setter)
                                     }
                                 } else {
                                     Type::Unknown
@@ -153,14 +153,18 @@ impl Property {
                 let impl_fn = self
                     .generate_getter(cfg, scoped_function_idents, local_types)?
                     .impl_fn;
-                functions.extend(quote::quote! { pub #impl_fn });
+                if !impl_fn.is_empty() {
+                    functions.extend(quote::quote! { pub #impl_fn });
+                }
 
                 // Setter (if mutable)
                 if self.is_mutable {
                     let impl_fn = self
                         .generate_setter(cfg, scoped_function_idents, local_types)?
                         .impl_fn;
-                    functions.extend(quote::quote! { pub #impl_fn });
+                    if !impl_fn.is_empty() {
+                        functions.extend(quote::quote! { pub #impl_fn });
+                    }
                 }
 
                 FunctionImplementation::Function(functions)
@@ -229,8 +233,14 @@ impl Property {
                     || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                 {
                     return Ok(TraitMethod::empty());
+                } else if let Ok(ident) = getter_name.try_into() {
+                    ident
                 } else {
-                    getter_name.try_into()?
+                    eprintln!(
+                            "WARN: Property '{}' has an invalid name in Rust. Bindings will not be generated.",
+                            self.name
+                        );
+                    return Ok(TraitMethod::empty());
                 }
             }
         };
@@ -303,8 +313,10 @@ impl Property {
                 || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
             {
                 return Ok(TraitMethod::empty());
+            } else if let Ok(ident) = setter_name.try_into() {
+                ident
             } else {
-                setter_name.try_into()?
+                return Ok(TraitMethod::empty());
             }
         };
         let param_name = self.name.name().as_py();
diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 82de783..8b41d0c 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -189,17 +189,16 @@ fn qualify_name(name: &str, namespace: &pyo3::Bound<pyo3::types::PyDict>) -> Opt
 
 impl Type {
     /// Parse the annotation of a function, whose namespace defines the names in annotations given as text.
+    ///
+    /// Note: Annotations can be any object, so the type is unknown for those that cannot be parsed.
     pub fn from_annotation_of(
         annotation: pyo3::Bound<pyo3::types::PyAny>,
         function: &pyo3::Bound<pyo3::types::PyAny>,
-    ) -> Result<Self> {
+    ) -> Self {
         let py = function.py();
-        let unwrap = py
-            .import_bound(pyo3::intern!(py, "inspect"))?
-            .getattr(pyo3::intern!(py, "unwrap"))?;
         let get_namespace = |function: &pyo3::Bound<pyo3::types::PyAny>| {
-            unwrap
-                .call1((function,))
+            py.import_bound(pyo3::intern!(py, "inspect"))?
+                .call_method1(pyo3::intern!(py, "unwrap"), (function,))
                 .and_then(|function| function.getattr(pyo3::intern!(py, "__globals__")))
         };
         let namespace = get_namespace(function)
@@ -207,7 +206,7 @@ impl Type {
             .or_else(|_| get_namespace(&function.getattr(pyo3::intern!(py, "func"))?))
             .and_then(|namespace| Ok(namespace.downcast_into::<pyo3::types::PyDict>()?))
             .ok();
-        Self::from_annotation(annotation, namespace.as_ref())
+        Self::from_annotation(annotation, namespace.as_ref()).unwrap_or(Self::Unknown)
     }
 
     fn from_annotation(
-- 
2.43.0


From 128f267286b6136aad667968f56314251f71816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 51/57] fix: skip members and submodules that cannot be parsed
 instead of failing or panicking

---
 pyo3_bindgen_engine/src/codegen.rs       | 13 ++--
 pyo3_bindgen_engine/src/syntax/class.rs  | 57 +++++++++-------
 pyo3_bindgen_engine/src/syntax/module.rs | 86 ++++++++++++++++--------
 pyo3_bindgen_engine/src/utils/attr.rs    | 23 ++++++-
 4 files changed, 117 insertions(+), 62 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index afcac49..842923b 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -241,17 +241,15 @@ impl Codegen {
                             Some(last_module)
                         })
                         // Parse the module and add it to the module tree
+                        .filter(|module| {
+                            module.name().is_ok_and(|name| !name.to_string().is_empty())
+                        })
                         .unique_by(|module| module.name().unwrap().to_string())
                         // Filter attributes based on various configurable conditions
                         .filter(|module| {
                             self.cfg.is_attr_allowed(
                                 &Ident::from_py(&module.name().unwrap().to_string()),
-                                &Path::from_py(
-                                    &module
-                                        .getattr(pyo3::intern!(py, "__module__"))
-                                        .map(|a| a.to_string())
-                                        .unwrap_or_default(),
-                                ),
+                                &Path::default(),
                                 &py.get_type_bound::<pyo3::types::PyModule>(),
                             )
                         })
@@ -413,7 +411,8 @@ impl Codegen {
                         module
                             .type_vars
                             .iter()
-                            .map(|type_var| type_var.name.clone()),
+                            .map(|type_var| type_var.name.clone())
+                            .filter(|name| syn::Ident::try_from(name.name()).is_ok()),
                     );
                 }
                 types.extend(get_types_recursive(cfg, &module.submodules));
diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 7c99158..1911d2d 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -38,12 +38,7 @@ impl Class {
             .filter_map(|attr_name| {
                 if let Ok(attr) = class.getattr(attr_name.as_py()) {
 
-                    let attr_module = Path::from_py(
-                        &attr
-                        .getattr(pyo3::intern!(py, "__module__"))
-                        .map(|a|a.to_string())
-                        .unwrap_or_default(),
-                    );
+                    let attr_module = crate::utils::attr::extract_attr_module(&attr);
                     let attr_type = attr.get_type();
 
                     Some((attr, attr_name, attr_module, attr_type))
@@ -60,7 +55,7 @@ impl Class {
                     || ["__init__", "__call__"].contains(&attr_name.as_py())
             })
             // Iterate over the remaining attributes and parse them
-            .try_for_each(|(attr, attr_name, attr_module, attr_type)| {
+            .map(|(attr, attr_name, attr_module, attr_type)| {
                 let attr_name_full = name.join(&attr_name.clone().into());
                 match AttributeVariant::determine(py, &attr, &attr_type, &attr_module, &name, false)
                     ?
@@ -119,7 +114,12 @@ impl Class {
                     }
                 }
                 Result::Ok(())
-            })?;
+            })
+            // Members that cannot be parsed must not affect any other
+            .filter_map(Result::err)
+            .for_each(|err| {
+                eprintln!("WARN: Cannot parse a member of '{name}': {err}. Bindings will not be generated.");
+            });
 
         // Extract the docstring of the class
         let docstring = crate::utils::attr::extract_docstring(class);
@@ -133,6 +133,19 @@ impl Class {
         })
     }
 
+    /// Get the name of the struct that is generated for a class of the given name.
+    pub fn struct_name(name: &Ident) -> Ident {
+        if syn::Ident::try_from(name).is_ok() {
+            name.clone()
+        } else {
+            // Sanitize the struct name
+            Ident::from_py(&format!(
+                "s_{}",
+                name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
+            ))
+        }
+    }
+
     pub fn generate(
         &self,
         cfg: &Config,
@@ -153,27 +166,21 @@ impl Class {
         // Generate the struct
         let struct_ident: syn::Ident = {
             let name = self.name.name();
-            if let Ok(ident) = name.try_into() {
-                ident
-            } else {
-                // Sanitize the struct name
-                let new_name = Ident::from_py(&format!(
-                    "s_{}",
-                    name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
-                ));
-                if let Ok(sanitized_ident) = new_name.clone().try_into() {
+            let struct_name = Self::struct_name(name);
+            if let Ok(ident) = (&struct_name).try_into() {
+                if struct_name != *name {
                     eprintln!(
                         "WARN: Struct '{}' is an invalid Rust ident for a struct name. Renamed to '{}'.",
-                        self.name, self.name.parent().unwrap_or_default().join(&new_name.into())
-                    );
-                    sanitized_ident
-                } else {
-                    eprintln!(
-                        "WARN: Struct '{}' is an invalid Rust ident for a struct name. Renaming failed. Bindings will not be generated.",
-                        self.name
+                        self.name, self.name.parent().unwrap_or_default().join(&struct_name.into())
                     );
-                    return Ok(proc_macro2::TokenStream::new());
                 }
+                ident
+            } else {
+                eprintln!(
+                    "WARN: Struct '{}' is an invalid Rust ident for a struct name. Renaming failed. Bindings will not be generated.",
+                    self.name
+                );
+                return Ok(proc_macro2::TokenStream::new());
             }
         };
         output.extend(quote::quote! {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 3605ce9..fa69523 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -50,14 +50,24 @@ impl Module {
         let py = module.py();
 
         // Extract the name of the module
-        let name = Path::from_py(&module.name().unwrap().to_string());
+        let name = Path::from_py(&module.name()?.to_string());
+        if name.is_empty() {
+            return Err(crate::PyBindgenError::ParseError(
+                "The module does not have a name".to_string(),
+            ));
+        }
 
         // Determine if the module is a package that contains submodules
-        let is_package = module.hasattr(pyo3::intern!(py, "__path__"))?;
+        let is_package = module
+            .hasattr(pyo3::intern!(py, "__path__"))
+            .unwrap_or_default();
 
         // Extract the list of all submodules for packages
         let mut submodules_to_process = if is_package {
-            Self::extract_submodules(cfg, module)?
+            Self::extract_submodules(cfg, module).unwrap_or_else(|err| {
+                eprintln!("WARN: Cannot find submodules of '{name}': {err}.");
+                HashSet::default()
+            })
         } else {
             HashSet::default()
         };
@@ -96,12 +106,7 @@ impl Module {
             .filter_map(|attr_name| {
                 if let Ok(attr) = module.getattr(attr_name.as_py()) {
 
-                    let attr_module = Path::from_py(
-                        &attr
-                        .getattr(pyo3::intern!(py, "__module__"))
-                        .map(|a| a.to_string())
-                        .unwrap_or_default(),
-                    );
+                    let attr_module = crate::utils::attr::extract_attr_module(&attr);
                     let attr_type = attr.get_type();
 
                     Some((attr, attr_name, attr_module, attr_type))
@@ -117,7 +122,7 @@ impl Module {
                 cfg.is_attr_allowed(attr_name, attr_module, attr_type)
             })
             // Iterate over the remaining attributes and parse them
-            .try_for_each(|(attr, attr_name, attr_module, attr_type)| {
+            .map(|(attr, attr_name, attr_module, attr_type)| {
                 let attr_name_full = name.join(&attr_name.clone().into());
                 match AttributeVariant::determine(py, &attr, &attr_type, &attr_module, &name, true)
                     ?
@@ -176,7 +181,9 @@ impl Module {
                     }
                     AttributeVariant::Module => {
                         // Note: This should technically not be necessary as `Self::extract_submodules` is supposed to extract all submodules
-                        submodules_to_process.insert(attr_name.clone());
+                        if syn::Ident::try_from(&attr_name).is_ok() {
+                            submodules_to_process.insert(attr_name.clone());
+                        }
                     }
                     AttributeVariant::Class => {
                         let class =
@@ -218,7 +225,12 @@ impl Module {
                     }
                 }
                 Result::Ok(())
-            })?;
+            })
+            // Members that cannot be parsed must not affect any other
+            .filter_map(Result::err)
+            .for_each(|err| {
+                eprintln!("WARN: Cannot parse a member of '{name}': {err}. Bindings will not be generated.");
+            });
 
         // Process submodules
         let submodules = if cfg.traverse_submodules {
@@ -235,11 +247,6 @@ impl Module {
                         if let Ok(submodule) = py
                             .import_bound(full_submodule_name.to_py().as_str())
                             .map_err(crate::PyBindgenError::from)
-                            .map(|attr| {
-                                <pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
-                                    .downcast_into::<pyo3::types::PyModule>()
-                                    .unwrap()
-                            })
                             .and_then(|module| Self::parse(cfg, &module))
                         {
                             // It could be any attribute, so all of them need to be checked
@@ -295,9 +302,21 @@ impl Module {
                                 .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
                         })
                         .ok()
+                        // Skip other modules that are merely available under that name
+                        .filter(|submodule| {
+                            submodule.name().is_ok_and(|submodule_name| {
+                                submodule_name.to_string() == full_submodule_name.to_py()
+                            })
+                        })
                 })
-                .map(|submodule| Self::parse(cfg, &submodule))
-                .collect::<Result<_>>()?
+                .filter_map(|submodule| {
+                    Self::parse(cfg, &submodule)
+                        .map_err(|err| {
+                            eprintln!("WARN: Cannot parse a submodule of '{name}': {err}. Bindings will not be generated.");
+                        })
+                        .ok()
+                })
+                .collect()
         } else {
             Vec::default()
         };
@@ -365,9 +384,13 @@ impl Module {
         let local_types = all_types
             .iter()
             .cloned()
-            .map(|path| {
-                let relative_path = self.name.relative_to(&path, false);
-                (path, relative_path)
+            .filter_map(|path| {
+                // Structs of classes with names that are not valid in Rust have a different name
+                let struct_path = path.parent()?.join(&Class::struct_name(path.name()).into());
+                let relative_path = self.name.relative_to(&struct_path, false);
+                syn::Path::try_from(&relative_path)
+                    .is_ok()
+                    .then_some((path, relative_path))
             })
             .collect();
 
@@ -577,7 +600,7 @@ impl Module {
             .collect::<Result<Vec<_>>>()?;
 
         // Extract the names of all submodules via `pkgutil.iter_modules`
-        let module_name = Path::from_py(&module.name().unwrap().to_string());
+        let module_name = Path::from_py(&module.name()?.to_string());
         pkgutil
             .call_method1(pyo3::intern!(py, "iter_modules"), (module_paths,))?
             .iter()?
@@ -596,6 +619,16 @@ impl Module {
                     )
                 })
             })
+            // Modules cannot be renamed, so skip those with names that are not valid in Rust
+            .filter(|submodule_name| {
+                let is_valid = submodule_name
+                    .as_ref()
+                    .is_ok_and(|submodule_name| syn::Ident::try_from(submodule_name).is_ok());
+                if !is_valid {
+                    eprintln!("WARN: Submodule of '{module_name}' has an invalid name in Rust. Bindings will not be generated.");
+                }
+                is_valid
+            })
             .collect()
     }
 
@@ -676,12 +709,7 @@ impl Module {
                     true
                 } else if let Ok(attr) = module.getattr(attr_name.as_py()) {
                     let is_reexport = module_name.root().is_some_and(|root_module| {
-                        let attr_module = Path::from_py(
-                            &attr
-                                .getattr(pyo3::intern!(module.py(), "__module__"))
-                                .map(|a| a.to_string())
-                                .unwrap_or_default(),
-                        );
+                        let attr_module = crate::utils::attr::extract_attr_module(&attr);
                         // Note: Values of variables do not know the module where they are defined
                         attr_module.is_empty() || attr_module.starts_with(&root_module)
                     });
diff --git a/pyo3_bindgen_engine/src/utils/attr.rs b/pyo3_bindgen_engine/src/utils/attr.rs
index 687bdf4..b0d3ce8 100644
--- a/pyo3_bindgen_engine/src/utils/attr.rs
+++ b/pyo3_bindgen_engine/src/utils/attr.rs
@@ -1,4 +1,7 @@
-use crate::{syntax::Ident, Result};
+use crate::{
+    syntax::{Ident, Path},
+    Result,
+};
 use itertools::Itertools;
 use pyo3::prelude::*;
 
@@ -25,6 +28,24 @@ pub fn list_attr_names(obj: &Bound<PyAny>) -> Result<Vec<Ident>> {
         .collect())
 }
 
+/// Extract the name of the module that defines the given attribute.
+///
+/// Note: Modules are not defined by any other module even if their `__getattr__` claims so.
+pub fn extract_attr_module(attr: &Bound<PyAny>) -> Path {
+    if attr.downcast::<pyo3::types::PyModule>().is_ok() {
+        return Path::default();
+    }
+    attr.getattr(pyo3::intern!(attr.py(), "__module__"))
+        .ok()
+        .and_then(|attr_module| {
+            attr_module
+                .downcast::<pyo3::types::PyString>()
+                .ok()
+                .map(|attr_module| Path::from_py(&attr_module.to_string_lossy()))
+        })
+        .unwrap_or_default()
+}
+
 /// Extract the docstring of the given object.
 ///
 /// Note: Any other value than a string is not a docstring and it must not be converted to one.
-- 
2.43.0


From 8698907dbdff9592e8fe982777547d987e5bf242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 52/57] fix: do not mistake raw identifiers, surrounding
 whitespace and the name super for something else

---
 .../src/syntax/common/ident.rs                | 20 ++++++++++++++++---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 10 ++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index 379f4ff..cb94407 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -29,25 +29,39 @@ impl Ident {
     }
 
     fn py_to_rs(value: &str) -> String {
-        if syn::parse_str::<syn::Ident>(value).is_ok() {
+        // Raw identifiers are not valid in Python
+        if !value.starts_with("r#") && Self::parse(value).is_ok() {
             value.to_owned()
         } else {
             format!("r#{value}")
         }
     }
+
+    fn parse(value: &str) -> syn::Result<syn::Ident> {
+        let ident = syn::parse_str::<syn::Ident>(value)?;
+        // Whitespace and comments around the identifier are skipped by the parser
+        if ident == value {
+            Ok(ident)
+        } else {
+            Err(syn::Error::new(
+                ident.span(),
+                format!("`{value}` is not an identifier"),
+            ))
+        }
+    }
 }
 
 impl TryFrom<Ident> for syn::Ident {
     type Error = syn::Error;
     fn try_from(value: Ident) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Ident>(&value.into_rs())
+        Ident::parse(&value.into_rs())
     }
 }
 
 impl TryFrom<&Ident> for syn::Ident {
     type Error = syn::Error;
     fn try_from(value: &Ident) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Ident>(value.as_rs())
+        Ident::parse(value.as_rs())
     }
 }
 
diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 909a683..a9c4150 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -60,8 +60,14 @@ impl Path {
     pub fn to_py(&self) -> String {
         self.segments
             .iter()
-            .map(Ident::as_py)
-            .map(|s| if s == "super" { "" } else { s })
+            .map(|ident| {
+                // Keywords of Rust are not relative paths if they come from Python
+                if ident.as_rs() == "super" {
+                    ""
+                } else {
+                    ident.as_py()
+                }
+            })
             .collect_vec()
             .join(".")
     }
-- 
2.43.0


From 3ac166318ebb9304fb9b6d3996e4b84b92064bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 53/57] fix: give every renamed member, struct and trait a name
 of its own and keep reserved names intact

---
 pyo3_bindgen_engine/src/codegen.rs            | 17 ++--
 pyo3_bindgen_engine/src/config.rs             |  6 ++
 pyo3_bindgen_engine/src/syntax/class.rs       | 60 +++++++++-----
 .../src/syntax/common/ident.rs                | 28 +++++++
 pyo3_bindgen_engine/src/syntax/function.rs    | 58 ++++++-------
 pyo3_bindgen_engine/src/syntax/module.rs      | 83 +++++++++++++++----
 pyo3_bindgen_engine/src/syntax/property.rs    | 20 ++++-
 pyo3_bindgen_engine/src/syntax/type_var.rs    | 12 ++-
 pyo3_bindgen_engine/src/typing/into_rs.rs     | 10 +--
 9 files changed, 207 insertions(+), 87 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 842923b..f19f8de 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -164,9 +164,10 @@ impl Codegen {
         Self::embed_source_code(&mut self.modules, &self.embedded_source_code);
 
         // Generate the bindings for all modules
+        let all_types = self.get_all_types();
         self.modules
             .iter()
-            .map(|module| module.generate(&self.cfg, &self.modules, &self.get_all_types()))
+            .map(|module| module.generate(&self.cfg, &self.modules, &all_types))
             .collect::<Result<_>>()
     }
 
@@ -399,20 +400,24 @@ impl Codegen {
             });
     }
 
-    fn get_all_types(&self) -> Vec<Path> {
-        fn get_types_recursive(cfg: &Config, input: &[Module]) -> Vec<Path> {
+    /// Get all types together with the paths under which they are generated.
+    fn get_all_types(&self) -> Vec<(Path, Path)> {
+        fn get_types_recursive(cfg: &Config, input: &[Module]) -> Vec<(Path, Path)> {
             let mut types = Vec::new();
             for module in input {
                 if cfg.generate_classes {
-                    types.extend(module.classes.iter().map(|class| class.name.clone()));
+                    types.extend(module.classes.iter().map(|class| {
+                        let struct_path = module.name.join(&module.struct_name(class).into());
+                        (class.name.clone(), struct_path)
+                    }));
                 }
                 if cfg.generate_type_vars {
                     types.extend(
                         module
                             .type_vars
                             .iter()
-                            .map(|type_var| type_var.name.clone())
-                            .filter(|name| syn::Ident::try_from(name.name()).is_ok()),
+                            .filter(|type_var| type_var.is_valid())
+                            .map(|type_var| (type_var.name.clone(), type_var.name.clone())),
                     );
                 }
                 types.extend(get_types_recursive(cfg, &module.submodules));
diff --git a/pyo3_bindgen_engine/src/config.rs b/pyo3_bindgen_engine/src/config.rs
index 6d53be8..dff5fae 100644
--- a/pyo3_bindgen_engine/src/config.rs
+++ b/pyo3_bindgen_engine/src/config.rs
@@ -13,6 +13,12 @@ pub const FORBIDDEN_TYPE_NAMES: [&str; 7] = [
     "py",
 ];
 
+/// Array of type names that cannot be redefined because the generated code depends on their meaning
+pub const RESERVED_TYPE_NAMES: [&str; 5] = ["bool", "f64", "i64", "str", "u8"];
+/// Array of names that cannot be used by structs because they are used by variables of the generated code
+pub const RESERVED_STRUCT_NAMES: [&str; 8] =
+    ["err", "f", "modules", "name", "ob", "other", "py", "s"];
+
 /// Default array of blocklisted attribute names
 const DEFAULT_BLOCKLIST_ATTRIBUTE_NAMES: [&str; 4] = ["builtins", "testing", "tests", "test"];
 
diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 1911d2d..5aa958e 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -133,22 +133,21 @@ impl Class {
         })
     }
 
-    /// Get the name of the struct that is generated for a class of the given name.
-    pub fn struct_name(name: &Ident) -> Ident {
-        if syn::Ident::try_from(name).is_ok() {
-            name.clone()
-        } else {
-            // Sanitize the struct name
-            Ident::from_py(&format!(
-                "s_{}",
-                name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
-            ))
-        }
+    /// Check if the struct of the class must have a different name than the class.
+    pub fn is_renamed(&self) -> bool {
+        let name = self.name.name();
+        !name.is_valid_rs()
+            || crate::config::RESERVED_TYPE_NAMES.contains(&name.as_py())
+            || crate::config::RESERVED_STRUCT_NAMES.contains(&name.as_py())
+            // Parameters of the generated functions
+            || name.as_py().starts_with("p_")
     }
 
     pub fn generate(
         &self,
         cfg: &Config,
+        struct_name: &Ident,
+        scoped_type_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<proc_macro2::TokenStream> {
         let mut output = proc_macro2::TokenStream::new();
@@ -166,12 +165,11 @@ impl Class {
         // Generate the struct
         let struct_ident: syn::Ident = {
             let name = self.name.name();
-            let struct_name = Self::struct_name(name);
-            if let Ok(ident) = (&struct_name).try_into() {
-                if struct_name != *name {
+            if let Ok(ident) = struct_name.try_into() {
+                if struct_name != name {
                     eprintln!(
                         "WARN: Struct '{}' is an invalid Rust ident for a struct name. Renamed to '{}'.",
-                        self.name, self.name.parent().unwrap_or_default().join(&struct_name.into())
+                        self.name, self.name.parent().unwrap_or_default().join(&struct_name.clone().into())
                     );
                 }
                 ident
@@ -200,7 +198,13 @@ impl Class {
             );
         });
 
-        // Get the names of all methods to avoid name clashes
+        // Get the names of all members to avoid name clashes
+        let scoped_idents = self
+            .methods
+            .iter()
+            .map(|method| method.name.name())
+            .chain(self.properties.iter().map(|property| property.name.name()))
+            .collect::<Vec<_>>();
         let mut scoped_function_idents = self
             .methods
             .iter()
@@ -214,7 +218,9 @@ impl Class {
         // Methods
         self.methods
             .iter()
-            .map(|method| method.generate(cfg, &scoped_function_idents, local_types))
+            .map(|method| {
+                method.generate(cfg, &scoped_function_idents, &scoped_idents, local_types)
+            })
             .try_for_each(|def| {
                 match def? {
                     FunctionImplementation::Function(impl_fn) => {
@@ -239,7 +245,8 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("new"));
+                scoped_function_idents_extra
+                    .push(Function::operator_ident("new", &scoped_function_idents));
             }
             if self.methods.iter().any(|method| {
                 matches!(
@@ -250,12 +257,15 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("call"));
+                scoped_function_idents_extra
+                    .push(Function::operator_ident("call", &scoped_function_idents));
             }
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
             self.properties
                 .iter()
-                .map(|property| property.generate(cfg, &scoped_function_idents, local_types))
+                .map(|property| {
+                    property.generate(cfg, &scoped_function_idents, &scoped_idents, local_types)
+                })
                 .try_for_each(|def| {
                     match def? {
                         FunctionImplementation::Function(impl_fn) => {
@@ -279,8 +289,14 @@ impl Class {
         });
 
         // Add the trait and implementation block for bounded struct
-        let trait_ident: syn::Ident =
-            Ident::from_py(&format!("{struct_ident}Methods")).try_into()?;
+        let trait_ident: syn::Ident = (0..)
+            .map(|i| {
+                let number = (i > 0).then(|| i.to_string()).unwrap_or_default();
+                Ident::from_py(&format!("{}Methods{number}", struct_name.as_py()))
+            })
+            .find(|ident| !scoped_type_idents.contains(&ident))
+            .unwrap_or_else(|| unreachable!())
+            .try_into()?;
         let struct_ident_str = struct_ident.to_string();
         output.extend(quote::quote! {
             /// These methods are defined for the `Bound<'py, T>` smart pointer, so to use
diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index cb94407..7b61d0a 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -24,6 +24,34 @@ impl Ident {
         Self::rs_as_py(&self.0)
     }
 
+    /// Check if the identifier is valid in Rust.
+    pub fn is_valid_rs(&self) -> bool {
+        Self::parse(self.as_rs()).is_ok()
+    }
+
+    /// Get a valid name in Rust for an identifier that cannot be used as is.
+    /// The result differs for all identifiers that are renamed and is not used by any other identifier of the scope.
+    pub fn rename(&self, prefix: &str, renamed: &[&Self], scope: &[&Self]) -> Self {
+        let sanitize = |ident: &Self| {
+            ident
+                .as_py()
+                .replace(|c: char| Self::parse(&format!("_{c}")).is_err(), "_")
+        };
+        let name = sanitize(self);
+        let n_clashes = renamed
+            .iter()
+            .filter(|other| **other < self && sanitize(other) == name)
+            .count();
+        (0..)
+            .map(|i| {
+                let number = (i > 0).then(|| i.to_string()).unwrap_or_default();
+                Self(format!("{prefix}{number}_{name}"))
+            })
+            .filter(|ident| !scope.contains(&ident))
+            .nth(n_clashes)
+            .unwrap_or_else(|| unreachable!())
+    }
+
     fn rs_as_py(value: &str) -> &str {
         value.strip_prefix("r#").unwrap_or(value)
     }
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index b268e69..e00fc61 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -330,10 +330,22 @@ impl Function {
         }
     }
 
+    /// Get the name of the function that is generated for a constructor or call operator.
+    pub fn operator_ident(name: &str, scoped_function_idents: &[&Ident]) -> Ident {
+        (0..)
+            .map(|i| {
+                let number = (i > 0).then(|| i.to_string()).unwrap_or_default();
+                Ident::from_py(&format!("{name}{number}"))
+            })
+            .find(|ident| !scoped_function_idents.contains(&ident))
+            .unwrap_or_else(|| unreachable!())
+    }
+
     pub fn generate(
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<FunctionImplementation> {
         let mut impl_fn = proc_macro2::TokenStream::new();
@@ -359,10 +371,14 @@ impl Function {
                 }
             } else {
                 // Sanitize the function name
-                let new_name = Ident::from_py(&format!(
-                    "f_{}",
-                    name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
-                ));
+                let new_name = {
+                    let renamed = scoped_function_idents
+                        .iter()
+                        .copied()
+                        .filter(|ident| !ident.is_valid_rs())
+                        .collect_vec();
+                    name.rename("f", &renamed, scoped_idents)
+                };
                 if let Ok(sanitized_ident) = new_name.clone().try_into() {
                     eprintln!(
                         "WARN: Function '{}' is an invalid Rust ident for a function name. Renamed to '{}'.",
@@ -424,20 +440,8 @@ impl Function {
                 typ: MethodType::Callable,
                 ..
             } => {
-                let call_fn_ident: syn::Ident = {
-                    let mut i = 0;
-                    loop {
-                        let ident = Ident::from_py(&format!(
-                            "call{}",
-                            (i > 0).then(|| i.to_string()).unwrap_or_default()
-                        ));
-                        if !scoped_function_idents.contains(&&ident) {
-                            break ident;
-                        }
-                        i += 1;
-                    }
-                }
-                .try_into()?;
+                let call_fn_ident: syn::Ident =
+                    Self::operator_ident("call", scoped_function_idents).try_into()?;
                 quote::quote! {
                     fn #call_fn_ident<'py>(
                         &'py self,
@@ -449,20 +453,8 @@ impl Function {
                 typ: MethodType::Constructor,
                 ..
             } => {
-                let new_fn_ident: syn::Ident = {
-                    let mut i = 0;
-                    loop {
-                        let ident = Ident::from_py(&format!(
-                            "new{}",
-                            (i > 0).then(|| i.to_string()).unwrap_or_default()
-                        ));
-                        if !scoped_function_idents.contains(&&ident) {
-                            break ident;
-                        }
-                        i += 1;
-                    }
-                }
-                .try_into()?;
+                let new_fn_ident: syn::Ident =
+                    Self::operator_ident("new", scoped_function_idents).try_into()?;
                 quote::quote! {
                     pub fn #new_fn_ident<'py>(
                         py: ::pyo3::marker::Python<'py>,
@@ -564,7 +556,7 @@ impl Function {
                 let n_args_fixed = positional_args_idents.len();
                 quote::quote! {
                     {
-                        let mut __internal__args = Vec::with_capacity(#n_args_fixed + ::pyo3::types::PyTupleMethods::len(#var_positional_args_ident));
+                        let mut __internal__args = ::std::vec::Vec::with_capacity(#n_args_fixed + ::pyo3::types::PyTupleMethods::len(#var_positional_args_ident));
                         __internal__args.extend([#(::pyo3::ToPyObject::to_object(&#positional_args_idents, py),)*]);
                         __internal__args.extend(::pyo3::types::PyTupleMethods::iter(#var_positional_args_ident).map(|__internal__arg| ::pyo3::ToPyObject::to_object(&__internal__arg, py)));
                         ::pyo3::types::PyTuple::new_bound(
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index fa69523..c635260 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -343,7 +343,7 @@ impl Module {
         &self,
         cfg: &Config,
         top_level_modules: &[Self],
-        all_types: &[Path],
+        all_types: &[(Path, Path)],
     ) -> Result<proc_macro2::TokenStream> {
         let mut output = proc_macro2::TokenStream::new();
 
@@ -380,17 +380,29 @@ impl Module {
             .map(|function| function.name.name())
             .collect::<Vec<_>>();
 
+        // Get the names of all members that share the namespace of functions to avoid name clashes
+        let struct_names = self
+            .classes
+            .iter()
+            .map(|class| self.struct_name(class))
+            .collect::<Vec<_>>();
+        let scoped_idents = scoped_function_idents
+            .iter()
+            .copied()
+            .chain(self.properties.iter().map(|property| property.name.name()))
+            .chain(self.imports.iter().map(|import| import.target.name()))
+            .chain(&struct_names)
+            .collect::<Vec<_>>();
+        let scoped_type_idents = self.type_idents().chain(&struct_names).collect::<Vec<_>>();
+
         // Get all local types mapped to the full path
         let local_types = all_types
             .iter()
-            .cloned()
-            .filter_map(|path| {
-                // Structs of classes with names that are not valid in Rust have a different name
-                let struct_path = path.parent()?.join(&Class::struct_name(path.name()).into());
-                let relative_path = self.name.relative_to(&struct_path, false);
+            .filter_map(|(path, struct_path)| {
+                let relative_path = self.name.relative_to(struct_path, false);
                 syn::Path::try_from(&relative_path)
                     .is_ok()
-                    .then_some((path, relative_path))
+                    .then(|| (path.clone(), relative_path))
             })
             .collect();
 
@@ -428,7 +440,10 @@ impl Module {
             module_content.extend(
                 self.classes
                     .iter()
-                    .map(|class| class.generate(cfg, &local_types))
+                    .zip(&struct_names)
+                    .map(|(class, struct_name)| {
+                        class.generate(cfg, struct_name, &scoped_type_idents, &local_types)
+                    })
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
         }
@@ -439,7 +454,7 @@ impl Module {
                     .iter()
                     .map(|function| {
                         function
-                            .generate(cfg, &scoped_function_idents, &local_types)
+                            .generate(cfg, &scoped_function_idents, &scoped_idents, &local_types)
                             .map(|def| {
                                 if let FunctionImplementation::Function(impl_fn) = def {
                                     impl_fn
@@ -458,7 +473,7 @@ impl Module {
                     .iter()
                     .map(|property| {
                         property
-                            .generate(cfg, &scoped_function_idents, &local_types)
+                            .generate(cfg, &scoped_function_idents, &scoped_idents, &local_types)
                             .map(|def| {
                                 if let FunctionImplementation::Function(impl_fn) = def {
                                     impl_fn
@@ -570,6 +585,35 @@ impl Module {
         Ok(output)
     }
 
+    /// Get the name of the struct that is generated for a class of the module.
+    pub fn struct_name(&self, class: &Class) -> Ident {
+        if !class.is_renamed() {
+            return class.name.name().clone();
+        }
+        let renamed = self
+            .classes
+            .iter()
+            .filter(|class| class.is_renamed())
+            .map(|class| class.name.name())
+            .collect_vec();
+        let scoped_idents = self
+            .type_idents()
+            .chain(self.functions.iter().map(|function| function.name.name()))
+            .chain(self.properties.iter().map(|property| property.name.name()))
+            .collect_vec();
+        class.name.name().rename("s", &renamed, &scoped_idents)
+    }
+
+    /// Get the names of all members that share the namespace of types.
+    fn type_idents(&self) -> impl Iterator<Item = &Ident> {
+        self.imports
+            .iter()
+            .map(|import| import.target.name())
+            .chain(self.submodules.iter().map(|module| module.name.name()))
+            .chain(self.classes.iter().map(|class| class.name.name()))
+            .chain(self.type_vars.iter().map(|type_var| type_var.name.name()))
+    }
+
     /// Remove members that cannot be generated because there is a submodule of the same name.
     pub fn resolve_name_clashes(modules: &mut [Self]) {
         for module in modules {
@@ -786,11 +830,18 @@ impl Module {
     /// Check if the path leads to an item that is generated with the given configuration.
     fn check_path_exists_recursive(&self, cfg: &Config, path: &Path) -> bool {
         self.submodules.iter().any(|module| module.name == *path)
-            || (cfg.generate_classes && self.classes.iter().any(|class| class.name == *path))
+            || (cfg.generate_classes
+                && self
+                    .classes
+                    .iter()
+                    .any(|class| !class.is_renamed() && class.name == *path))
             || (cfg.generate_functions
                 && self.functions.iter().any(|function| function.name == *path))
             || (cfg.generate_type_vars
-                && self.type_vars.iter().any(|type_var| type_var.name == *path))
+                && self
+                    .type_vars
+                    .iter()
+                    .any(|type_var| type_var.is_valid() && type_var.name == *path))
             || (cfg.generate_properties
                 && self
                     .properties
@@ -807,7 +858,11 @@ impl Module {
         self.submodules
             .iter()
             .any(|module| module.name.name() == ident)
-            || (cfg.generate_classes && self.classes.iter().any(|class| class.name.name() == ident))
+            || (cfg.generate_classes
+                && self
+                    .classes
+                    .iter()
+                    .any(|class| !class.is_renamed() && class.name.name() == ident))
             || (cfg.generate_functions
                 && self
                     .functions
@@ -817,7 +872,7 @@ impl Module {
                 && self
                     .type_vars
                     .iter()
-                    .any(|type_var| type_var.name.name() == ident))
+                    .any(|type_var| type_var.is_valid() && type_var.name.name() == ident))
             || (cfg.generate_properties
                 && self
                     .properties
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 91d267b..0d3edbe 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -143,6 +143,7 @@ impl Property {
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<FunctionImplementation> {
         Ok(match self.owner {
@@ -151,7 +152,7 @@ impl Property {
 
                 // Getter
                 let impl_fn = self
-                    .generate_getter(cfg, scoped_function_idents, local_types)?
+                    .generate_getter(cfg, scoped_function_idents, scoped_idents, local_types)?
                     .impl_fn;
                 if !impl_fn.is_empty() {
                     functions.extend(quote::quote! { pub #impl_fn });
@@ -160,7 +161,7 @@ impl Property {
                 // Setter (if mutable)
                 if self.is_mutable {
                     let impl_fn = self
-                        .generate_setter(cfg, scoped_function_idents, local_types)?
+                        .generate_setter(cfg, scoped_function_idents, scoped_idents, local_types)?
                         .impl_fn;
                     if !impl_fn.is_empty() {
                         functions.extend(quote::quote! { pub #impl_fn });
@@ -174,13 +175,19 @@ impl Property {
                 let mut impl_fn = proc_macro2::TokenStream::new();
 
                 // Getter
-                let getter = self.generate_getter(cfg, scoped_function_idents, local_types)?;
+                let getter =
+                    self.generate_getter(cfg, scoped_function_idents, scoped_idents, local_types)?;
                 trait_fn.extend(getter.trait_fn);
                 impl_fn.extend(getter.impl_fn);
 
                 // Setter (if mutable)
                 if self.is_mutable {
-                    let setter = self.generate_setter(cfg, scoped_function_idents, local_types)?;
+                    let setter = self.generate_setter(
+                        cfg,
+                        scoped_function_idents,
+                        scoped_idents,
+                        local_types,
+                    )?;
                     trait_fn.extend(setter.trait_fn);
                     impl_fn.extend(setter.impl_fn);
                 }
@@ -194,6 +201,7 @@ impl Property {
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<TraitMethod> {
         let mut trait_fn = proc_macro2::TokenStream::new();
@@ -218,6 +226,7 @@ impl Property {
                 {
                     let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
                     if scoped_function_idents.contains(&&getter_name)
+                        || scoped_idents.contains(&&getter_name)
                         || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                     {
                         return Ok(TraitMethod::empty());
@@ -230,6 +239,7 @@ impl Property {
             } else {
                 let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
                 if scoped_function_idents.contains(&&getter_name)
+                    || scoped_idents.contains(&&getter_name)
                     || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                 {
                     return Ok(TraitMethod::empty());
@@ -291,6 +301,7 @@ impl Property {
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<TraitMethod> {
         let mut trait_fn = proc_macro2::TokenStream::new();
@@ -310,6 +321,7 @@ impl Property {
         let function_ident: syn::Ident = {
             let setter_name = Ident::from_py(&format!("set_{}", self.name.name().as_py()));
             if scoped_function_idents.contains(&&setter_name)
+                || scoped_idents.contains(&&setter_name)
                 || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
             {
                 return Ok(TraitMethod::empty());
diff --git a/pyo3_bindgen_engine/src/syntax/type_var.rs b/pyo3_bindgen_engine/src/syntax/type_var.rs
index 4723e72..ea0dc32 100644
--- a/pyo3_bindgen_engine/src/syntax/type_var.rs
+++ b/pyo3_bindgen_engine/src/syntax/type_var.rs
@@ -11,15 +11,21 @@ impl TypeVar {
         Self { name }
     }
 
+    /// Check if the type variable can be generated under its name.
+    pub fn is_valid(&self) -> bool {
+        let name = self.name.name();
+        name.is_valid_rs() && !crate::config::RESERVED_TYPE_NAMES.contains(&name.as_py())
+    }
+
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
-        let Ok(typevar_ident): std::result::Result<syn::Ident, _> = self.name.name().try_into()
-        else {
+        if !self.is_valid() {
             eprintln!(
                 "WARN: Type variable '{}' has an invalid name in Rust. Bindings will not be generated.",
                 self.name
             );
             return Ok(proc_macro2::TokenStream::new());
-        };
+        }
+        let typevar_ident: syn::Ident = self.name.name().try_into()?;
         Ok(quote::quote! {
             pub type #typevar_ident = ::pyo3::types::PyAny;
         })
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 6b77eea..da3af1d 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -121,9 +121,9 @@ impl Type {
 
             // Primitives
             Self::PyBool => OutputType::new_identical(quote!(bool)),
-            Self::PyByteArray => OutputType::new(quote!(Vec<u8>), quote!(&[u8]))
+            Self::PyByteArray => OutputType::new(quote!(::std::vec::Vec<u8>), quote!(&[u8]))
                 .with_nested(quote!(::pyo3::Bound<'py, ::pyo3::types::PyByteArray>)),
-            Self::PyBytes => OutputType::new(quote!(Vec<u8>), quote!(&[u8]))
+            Self::PyBytes => OutputType::new(quote!(::std::vec::Vec<u8>), quote!(&[u8]))
                 .with_nested(quote!(::pyo3::Bound<'py, ::pyo3::types::PyBytes>)),
             Self::PyFloat => OutputType::new_identical(quote!(f64)),
             Self::PyLong => OutputType::new_identical(quote!(i64)),
@@ -198,12 +198,12 @@ impl Type {
                     quote!(::pyo3::Bound<'py, ::pyo3::types::PyAny>),
                     quote!(&[#nested]),
                 )
-                .with_nested(quote!(Vec<#nested>))
+                .with_nested(quote!(::std::vec::Vec<#nested>))
             }
             Self::PyList(inner_type) => {
                 let OutputType { owned, nested, .. } = inner_type.into_rs(local_types);
-                OutputType::new(quote!(Vec<#owned>), quote!(&[#nested]))
-                    .with_nested(quote!(Vec<#nested>))
+                OutputType::new(quote!(::std::vec::Vec<#owned>), quote!(&[#nested]))
+                    .with_nested(quote!(::std::vec::Vec<#nested>))
             }
             Self::PyMapping {
                 key_type,
-- 
2.43.0


From abeb590e610d20b20752620627dcbda016a89daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 54/57] fix: bind inherited class members as the class that
 defines them says

---
 pyo3_bindgen_engine/src/syntax/function.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index e00fc61..eb69ed1 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -137,15 +137,20 @@ impl Function {
                             )
                         });
 
-                    // Try to get the static object of the method (from __dict__), which still contains information about what kind of method it is
+                    // Try to get the static object of the method (from __dict__ of the class or its bases), which still contains information about what kind of method it is
                     if let Ok(static_fn_obj) = class.and_then(|class| {
-                        class
-                            .getattr(pyo3::intern!(py, "__dict__"))?
-                            .get_item(name.name().as_py())
+                        py.import_bound(pyo3::intern!(py, "inspect"))?.call_method1(
+                            pyo3::intern!(py, "getattr_static"),
+                            (class, name.name().as_py()),
+                        )
                     }) {
                         let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
                         let method_type = if py
-                            .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
+                            .eval_bound(
+                                "isinstance(obj, (classmethod, type(dict.__dict__['fromkeys'])))",
+                                None,
+                                Some(&locals),
+                            )?
                             .is_truthy()?
                         {
                             MethodType::ClassMethod
-- 
2.43.0


From 47e8122ce033cf6f326bf8453fe6d2370d3b5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 55/57] fix: bound the nesting of types

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 76 +++++++++++++++--------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 8b41d0c..c12da5a 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -4,10 +4,13 @@ use itertools::Itertools;
 use pyo3::prelude::*;
 use std::str::FromStr;
 
+/// The maximum nesting of types. Deeper types are unknown, because the nesting of Rust types is limited as well.
+const MAX_NESTING: usize = 32;
+
 impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
     type Error = PyBindgenError;
     fn try_from(value: pyo3::Bound<pyo3::types::PyAny>) -> Result<Self> {
-        Self::from_annotation(value, None)
+        Self::from_annotation(value, None, 0)
     }
 }
 
@@ -206,14 +209,17 @@ impl Type {
             .or_else(|_| get_namespace(&function.getattr(pyo3::intern!(py, "func"))?))
             .and_then(|namespace| Ok(namespace.downcast_into::<pyo3::types::PyDict>()?))
             .ok();
-        Self::from_annotation(annotation, namespace.as_ref()).unwrap_or(Self::Unknown)
+        Self::from_annotation(annotation, namespace.as_ref(), 0).unwrap_or(Self::Unknown)
     }
 
     fn from_annotation(
         value: pyo3::Bound<pyo3::types::PyAny>,
         namespace: Option<&pyo3::Bound<pyo3::types::PyDict>>,
+        nesting: usize,
     ) -> Result<Self> {
         match value {
+            // Too deeply nested -> Unknown type
+            _ if nesting > MAX_NESTING => Ok(Self::Unknown),
             // None -> Unknown type
             none if none.is_none() => Ok(Self::Unknown),
             // Handle PyType
@@ -231,7 +237,7 @@ impl Type {
                         .as_str(),
                 ) =>
             {
-                Self::from_typing(typing, namespace)
+                Self::from_typing(typing, namespace, nesting)
             }
             // Handle everything else as string
             _ => {
@@ -240,18 +246,22 @@ impl Type {
                         .downcast::<pyo3::types::PyString>()
                         .unwrap()
                         .to_str()?;
-                    Self::from_text(text, namespace)
+                    Self::from_text(text, namespace, nesting)
                 } else {
-                    Self::from_str(&value.to_string())
+                    Self::parse(&value.to_string(), nesting)
                 }
             }
         }
     }
 
-    fn from_text(text: &str, namespace: Option<&pyo3::Bound<pyo3::types::PyDict>>) -> Result<Self> {
+    fn from_text(
+        text: &str,
+        namespace: Option<&pyo3::Bound<pyo3::types::PyDict>>,
+        nesting: usize,
+    ) -> Result<Self> {
         match namespace {
-            Some(namespace) => Self::from_str(&qualify_names(text, namespace)),
-            None => Self::from_str(text),
+            Some(namespace) => Self::parse(&qualify_names(text, namespace), nesting),
+            None => Self::parse(text, nesting),
         }
     }
 
@@ -267,6 +277,7 @@ impl Type {
     fn from_typing(
         value: pyo3::Bound<pyo3::types::PyAny>,
         namespace: Option<&pyo3::Bound<pyo3::types::PyDict>>,
+        nesting: usize,
     ) -> Result<Self> {
         let py = value.py();
 
@@ -275,7 +286,7 @@ impl Type {
             .getattr(pyo3::intern!(py, "__forward_arg__"))
             .and_then(|text| text.extract::<String>())
         {
-            return Self::from_text(&text, namespace);
+            return Self::from_text(&text, namespace, nesting);
         }
 
         // Unpacked elements are not a type
@@ -283,7 +294,7 @@ impl Type {
             .getattr(pyo3::intern!(py, "__unpacked__"))
             .is_ok_and(|unpacked| unpacked.is_truthy().unwrap_or_default())
         {
-            return Self::from_str(&value.to_string());
+            return Self::parse(&value.to_string(), nesting);
         }
 
         let wrapping_type = value.getattr(pyo3::intern!(py, "__origin__"));
@@ -292,7 +303,7 @@ impl Type {
             let wrapping_type = if is_union {
                 Self::Union(vec![Self::Unknown])
             } else {
-                Self::from_annotation(wrapping_type?, namespace)?
+                Self::from_annotation(wrapping_type?, namespace, nesting + 1)?
             };
 
             // Arguments of other annotations (e.g. the values of `Literal`) are not types
@@ -315,7 +326,7 @@ impl Type {
                 {
                     let inner_types = inner_types
                         .iter()
-                        .map(|inner_type| Self::from_annotation(inner_type, namespace))
+                        .map(|inner_type| Self::from_annotation(inner_type, namespace, nesting + 1))
                         .collect::<Result<Vec<_>>>()?;
                     match wrapping_type {
                         // The number of arguments is not checked by Python
@@ -393,7 +404,7 @@ impl Type {
             )
         } else {
             // Handle everything else as string
-            Type::from_str(&value.to_string())
+            Self::parse(&value.to_string(), nesting)
         }
     }
 }
@@ -401,6 +412,17 @@ impl Type {
 impl std::str::FromStr for Type {
     type Err = PyBindgenError;
     fn from_str(value: &str) -> Result<Self> {
+        Self::parse(value, 0)
+    }
+}
+
+impl Type {
+    fn parse(value: &str, nesting: usize) -> Result<Self> {
+        if nesting > MAX_NESTING {
+            return Ok(Self::Unknown);
+        }
+
+        let parse_nested = |value: &str| Self::parse(value, nesting + 1);
         Ok(match value {
             "Any" => Self::PyAny,
 
@@ -416,7 +438,7 @@ impl std::str::FromStr for Type {
             r#union if split_union(r#union).len() > 1 => {
                 let inner_types = split_union(r#union)
                     .iter()
-                    .map(|x| Self::from_str(x))
+                    .map(|x| parse_nested(x))
                     .collect::<Result<Vec<_>>>()?;
                 Self::from_union(inner_types)
             }
@@ -437,7 +459,7 @@ impl std::str::FromStr for Type {
                 // debug_assert_eq!(inner_types.len(), 2);
                 let inner_types = inner_types
                     .iter()
-                    .map(|x| Self::from_str(x))
+                    .map(|x| parse_nested(x))
                     .collect::<Result<Vec<_>>>()?;
                 let (key_type, value_type) = match inner_types.as_slice() {
                     [key_type, value_type] => (key_type.clone(), value_type.clone()),
@@ -457,7 +479,7 @@ impl std::str::FromStr for Type {
                 value_type: Box::new(Self::Unknown),
             },
             frozenset if frozenset.starts_with("frozenset[") && frozenset.ends_with(']') => {
-                let inner_type = Self::from_str(
+                let inner_type = parse_nested(
                     frozenset
                         .strip_prefix("frozenset[")
                         .unwrap_or_else(|| unreachable!())
@@ -467,7 +489,7 @@ impl std::str::FromStr for Type {
                 Self::PyFrozenSet(Box::new(inner_type))
             }
             list if list.starts_with("list[") && list.ends_with(']') => {
-                let inner_type = Self::from_str(
+                let inner_type = parse_nested(
                     list.strip_prefix("list[")
                         .unwrap_or_else(|| unreachable!())
                         .strip_suffix(']')
@@ -477,7 +499,7 @@ impl std::str::FromStr for Type {
             }
             "list" => Self::PyList(Box::new(Self::Unknown)),
             sequence if sequence.starts_with("Sequence[") && sequence.ends_with(']') => {
-                let inner_type = Self::from_str(
+                let inner_type = parse_nested(
                     sequence
                         .strip_prefix("Sequence[")
                         .unwrap_or_else(|| unreachable!())
@@ -488,7 +510,7 @@ impl std::str::FromStr for Type {
             }
             "Sequence" => Self::PyList(Box::new(Self::Unknown)),
             iterable if iterable.starts_with("Iterable[") && iterable.ends_with(']') => {
-                let inner_type = Self::from_str(
+                let inner_type = parse_nested(
                     iterable
                         .strip_prefix("Iterable[")
                         .unwrap_or_else(|| unreachable!())
@@ -501,7 +523,7 @@ impl std::str::FromStr for Type {
             // An iterator is consumed by its conversion, so it must stay a Python object
             iterator if iterator == "Iterator" || iterator.starts_with("Iterator[") => Self::PyAny,
             set if set.starts_with("set[") && set.ends_with(']') => {
-                let inner_type = Self::from_str(
+                let inner_type = parse_nested(
                     set.strip_prefix("set[")
                         .unwrap_or_else(|| unreachable!())
                         .strip_suffix(']')
@@ -521,7 +543,7 @@ impl std::str::FromStr for Type {
                 repair_complex_sequence(&mut inner_types, ',');
                 let inner_types = inner_types
                     .iter()
-                    .map(|x| Self::from_str(x))
+                    .map(|x| parse_nested(x))
                     .collect::<Result<_>>()?;
                 Self::PyTuple(inner_types)
             }
@@ -572,7 +594,7 @@ impl std::str::FromStr for Type {
                 // debug_assert!(!inner_types.is_empty());
                 let inner_types = inner_types
                     .iter()
-                    .map(|x| Self::from_str(x))
+                    .map(|x| parse_nested(x))
                     .collect::<Result<Vec<_>>>()?;
                 Self::PyFunction {
                     param_types: match inner_types.len() {
@@ -598,7 +620,7 @@ impl std::str::FromStr for Type {
             typ if typ.starts_with("type[") && typ.ends_with(']') => Self::PyType,
 
             // classes
-            class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
+            class if class.starts_with("<class '") && class.ends_with("'>") => parse_nested(
                 class
                     .strip_prefix("<class '")
                     .unwrap_or_else(|| unreachable!())
@@ -607,7 +629,7 @@ impl std::str::FromStr for Type {
             )?,
 
             // enums
-            enume if enume.starts_with("<enum '") && enume.ends_with("'>") => Self::from_str(
+            enume if enume.starts_with("<enum '") && enume.ends_with("'>") => parse_nested(
                 enume
                     .strip_prefix("<enum '")
                     .unwrap_or_else(|| unreachable!())
@@ -616,20 +638,20 @@ impl std::str::FromStr for Type {
             )?,
 
             // typing
-            typing if typing.starts_with("typing.") => Self::from_str(
+            typing if typing.starts_with("typing.") => parse_nested(
                 typing
                     .strip_prefix("typing.")
                     .unwrap_or_else(|| unreachable!()),
             )?,
 
             // collections.abc
-            collections_abc if collections_abc.starts_with("collections.abc.") => Self::from_str(
+            collections_abc if collections_abc.starts_with("collections.abc.") => parse_nested(
                 collections_abc
                     .strip_prefix("collections.abc.")
                     .unwrap_or_else(|| unreachable!()),
             )?,
             // collections
-            collections if collections.starts_with("collections.") => Self::from_str(
+            collections if collections.starts_with("collections.") => parse_nested(
                 collections
                     .strip_prefix("collections.")
                     .unwrap_or_else(|| unreachable!()),
-- 
2.43.0


From 45fa352c851cf1b20541fb01fb3d4386a5a61460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 56/57] fix: find members that hide a submodule also in its
 submodules

---
 pyo3_bindgen_engine/src/syntax/module.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index c635260..41dc532 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -244,11 +244,19 @@ impl Module {
                         .iter()
                         .find(|import| import.target == full_submodule_name)
                     {
-                        if let Ok(submodule) = py
+                        if let Ok(mut submodule) = py
                             .import_bound(full_submodule_name.to_py().as_str())
                             .map_err(crate::PyBindgenError::from)
                             .and_then(|module| Self::parse(cfg, &module))
                         {
+                            // The origin might be nested deeper inside of the submodule
+                            let origin = &conflicting_import.origin;
+                            while let Some(i) = submodule.submodules.iter().position(|nested| {
+                                nested.name.len() < origin.len() && origin.starts_with(&nested.name)
+                            }) {
+                                submodule = submodule.submodules.swap_remove(i);
+                            }
+
                             // It could be any attribute, so all of them need to be checked
                             if let Some(mut import) = submodule
                                 .imports
-- 
2.43.0


From a4340d91803c4180b5ff7f711b073d01a58b21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 57/57] fix: find the class of a method also if its module is
 hidden by another member

---
 pyo3_bindgen_engine/src/syntax/function.rs | 38 ++++++++++++----------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index eb69ed1..63d930f 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -122,27 +122,29 @@ impl Function {
                     typ: method_typ,
                 } if *method_typ == MethodType::Unknown => {
                     // Get the class object from its class path
-                    let class = py
-                        .import_bound(
-                            class_path
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .and_then(|root_module| {
-                            class_path.iter().skip(1).try_fold(
-                                root_module.extract::<&pyo3::types::PyAny>()?,
-                                |module, name| module.getattr(name.as_py()),
-                            )
+                    // Note: Modules are not necessarily accessible as attributes of their package
+                    let class = (1..class_path.len())
+                        .rev()
+                        .find_map(|i| {
+                            let module_name = Path::from(&class_path[..i]);
+                            let module = py.import_bound(module_name.to_py().as_str()).ok()?;
+                            Some((module.into_any(), class_path.iter().skip(i)))
+                        })
+                        .and_then(|(module, mut names)| {
+                            names
+                                .try_fold(module, |object, name| object.getattr(name.as_py()))
+                                .ok()
                         });
 
                     // Try to get the static object of the method (from __dict__ of the class or its bases), which still contains information about what kind of method it is
-                    if let Ok(static_fn_obj) = class.and_then(|class| {
-                        py.import_bound(pyo3::intern!(py, "inspect"))?.call_method1(
-                            pyo3::intern!(py, "getattr_static"),
-                            (class, name.name().as_py()),
-                        )
+                    if let Some(static_fn_obj) = class.and_then(|class| {
+                        py.import_bound(pyo3::intern!(py, "inspect"))
+                            .ok()?
+                            .call_method1(
+                                pyo3::intern!(py, "getattr_static"),
+                                (class, name.name().as_py()),
+                            )
+                            .ok()
                     }) {
                         let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
                         let method_type = if py
-- 
2.43.0

