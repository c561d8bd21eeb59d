"""Writes /verif/properties.jsonl (kept as code so that the file stays well-formed)."""
import json, os
E = "pyo3_bindgen_engine/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "Generated bindings always compile",
     "Whenever generation succeeds, the produced Rust is syntactically valid and compiles against pyo3 alone, whatever the names, signatures, annotations, classes, re-exports and configuration flags of the Python modules involved.",
     ["inputs", "programs", "configurations"],
     "all Python modules built from a grammar of members (names x kinds x annotations x bases x pairs of coexisting members), the standard library, and all generation flags",
     "The three golden tests compare one text per construct and never run rustc on the output; a clash between two members, an unusual annotation or a flag combination is not sampled.",
     [E + "syntax/module.rs", E + "syntax/class.rs", E + "syntax/function.rs", E + "syntax/property.rs", E + "typing/into_rs.rs", E + "codegen.rs"],
     [("identifier sanitisation and clash avoidance", E + "syntax/function.rs generate, syntax/property.rs generate_getter/generate_setter"),
      ("hashability and type mapping", E + "typing/mod.rs is_hashable, typing/into_rs.rs into_rs")],
     ["Codegen::generate output compiled by rustc with pyo3"])

prop("C02", "Generation survives any module",
     "Generating bindings for an importable module never panics, aborts or hangs. A member that cannot be read, inspected or expressed in Rust costs at most itself: generation still succeeds and every other public member keeps its binding.",
     ["inputs", "fault_sequences"],
     "all modules with one or two hostile members from an alphabet of hostile shapes (raising descriptors, lying signatures, malformed annotations, missing module attributes, broken submodules, odd names), each beside ordinary members",
     "Tests only parse well-behaved code; each hostile shape exercises a different unwrap, index or early return while parsing.",
     [E + "syntax/module.rs", E + "syntax/class.rs", E + "syntax/function.rs", E + "syntax/property.rs", E + "typing/from_py.rs", E + "syntax/common/path.rs"],
     [("skip-with-warning of unreadable attributes", E + "syntax/module.rs parse, syntax/class.rs parse"),
      ("fallback to PyAny and *args/**kwargs", E + "typing/from_py.rs, syntax/function.rs parse")],
     ["result of Codegen::module_name/generate", "items of the generated bindings"])

prop("C03", "Function calls are forwarded faithfully",
     "Calling the Rust binding of a module-level Python function performs exactly one call of the function the module has under that name at that moment, with every argument bound to the same-named Python parameter (positional, positional-only, keyword-only, *args and **kwargs alike). The binding returns what Python returned and propagates the exception Python raised.",
     ["inputs", "programs"],
     "all signatures up to five parameters over the five parameter kinds, with and without defaults, for every kind of function object, called with empty and non-empty variadics, and all exceptions outcomes",
     "One golden test fixes the text for a one-argument function; no generated call is ever executed and mixed-kind signatures never appear.",
     [E + "syntax/function.rs"],
     [("argument packing", E + "syntax/function.rs generate (positional_args, keyword_args, call)"),
      ("signature extraction", E + "syntax/function.rs parse")],
     ["arguments seen by the Python function", "return value or error of the generated function"])

prop("C04", "Class members dispatch as they do in Python",
     "The generated constructor creates an instance through the Python class, and every generated method calls the same-named method with Python's own binding rules: instance methods on the given instance, class methods with the class, static methods with nothing bound, inherited and overridden methods along Python's MRO. Arguments, results and exceptions pass through unchanged.",
     ["inputs", "programs"],
     "all classes with one or two members over member kinds (constructor, instance, class, static, callable, property) x signatures x inheritance shapes, driven by short call sequences",
     "One golden test compares text for one constructor and one method; no generated method is executed and static, class, inherited and callable members are not covered.",
     [E + "syntax/class.rs", E + "syntax/function.rs"],
     [("method kind inference", E + "syntax/function.rs parse (MethodType)"),
      ("dispatcher selection", E + "syntax/function.rs generate (function_dispatcher)")],
     ["arguments seen by the Python method", "return value or error of the generated method"])

prop("C05", "Typed values cross the boundary unchanged",
     "For any annotation built from the supported types and any value Rust can represent (integers of 64 bits, text without lone surrogates), a Rust value passed to a generated function arrives in Python as an instance of the annotated type holding the same value, and a value of the annotated type returned by Python is accepted and converts to the equal Rust value. An unsupported or unresolvable annotation falls back to an unconstrained object and never to a wrong concrete type.",
     ["inputs", "programs"],
     "all annotations of the type grammar up to nesting depth two (three in the thorough tier), in every spelling (runtime objects, typing generics, builtin generics, PEP 604 unions, strings), as parameter and as return type",
     "Only float, str, int, Optional[int] and Dict[str, int] occur in the tests, compared as text and never executed.",
     [E + "typing/from_py.rs", E + "typing/into_rs.rs", E + "typing/mod.rs"],
     [("annotation parsing", E + "typing/from_py.rs"), ("Rust type selection and argument preprocessing", E + "typing/into_rs.rs")],
     ["parameter and return types of generated functions", "value and type seen by Python"])

prop("C06", "Class annotations denote exactly that class's binding",
     "Where an annotation names a class that is part of the generated bindings, the Rust type resolves to the struct generated for that very class, from any module of the tree and through imports and aliases. Annotations naming classes that have no binding never resolve to the struct of a different class.",
     ["programs", "inputs"],
     "all placements of one or two (possibly same-named) classes and of their users over a package tree of three modules, for every import form, alias and annotation spelling",
     "The only test uses a class from its own module; same-named classes, parents, siblings and aliases are never combined.",
     [E + "syntax/module.rs", E + "typing/into_rs.rs", E + "syntax/common/path.rs", E + "codegen.rs"],
     [("local type table", E + "syntax/module.rs generate (local_types)"), ("relative paths", E + "syntax/common/path.rs relative_to")],
     ["resolved type paths in generated signatures"])

prop("C07", "Bindings mirror the public structure of the modules",
     "With the default configuration the bindings contain exactly one item for each public class, function, type variable and variable of each requested module and of each importable public submodule in its package path, and one method or accessor for each public method, property and variable of a bound class. They are nested as the Python packages are and contain nothing for private names or for classes, Python functions and modules defined elsewhere. Requesting a nested module yields the same module path with no extra members of its parents.",
     ["programs", "configurations", "histories"],
     "all package trees of up to four modules and all assignments of member kinds, visibilities and imports to them, for every choice of requested module",
     "Tests use single flat modules; nested packages, missing imports, name/submodule collisions and nested requests are not covered.",
     [E + "syntax/module.rs", E + "codegen.rs", E + "syntax/common/attribute_variant.rs"],
     [("attribute classification", E + "syntax/common/attribute_variant.rs determine"), ("submodule discovery", E + "syntax/module.rs extract_submodules, parse"), ("canonicalisation", E + "codegen.rs canonicalize")],
     ["items of the generated bindings"])

prop("C08", "Each configuration flag gates exactly its own kind",
     "Switching off the generation of one kind of item (functions, classes, properties, type variables, imports, preludes, docs, submodules) removes exactly the items of that kind, blocklisted names remove exactly the members so named, and including private members only adds members. Everything else in the output stays the same, in every combination of the settings.",
     ["configurations", "inputs"],
     "all 2^9 combinations of the generation flags, and blocklists and privacy settings, over a corpus of module shapes",
     "Every test uses the default configuration.",
     [E + "config.rs", E + "syntax/module.rs", E + "syntax/class.rs"],
     [("flag checks", E + "syntax/module.rs generate/parse"), ("attribute filter", E + "config.rs is_attr_allowed")],
     ["items of the generated bindings per configuration"])

prop("C09", "Every Python name reaches the attribute of that very name",
     "Whatever its spelling (Rust keyword, non-ASCII, clash with another generated name), a Python function, class, method, parameter or variable that gets a binding is accessed under exactly its Python name, and a name that is a legal Rust identifier (raw if a keyword) keeps it, unless the generated code needs that name itself (such as bool for a class, or new for a property of a class that has a constructor). Two members never share one binding and renaming one never redirects another.",
     ["inputs", "programs"],
     "all names of an alphabet (Rust strict, reserved and contextual keywords, raw-forbidden names, non-ASCII, names equal to generated helpers) in every position, alone and in colliding pairs",
     "Only the single keyword 'struct' is tested, on the identifier type alone.",
     [E + "syntax/common/ident.rs", E + "syntax/common/path.rs", E + "syntax/function.rs", E + "syntax/property.rs", E + "syntax/class.rs"],
     [("raw identifiers", E + "syntax/common/ident.rs py_to_rs/rs_as_py"), ("renaming", E + "syntax/function.rs generate, syntax/class.rs generate, syntax/property.rs generate_getter")],
     ["attribute reached by the executed binding"])

prop("C10", "Docstrings are carried over as documentation only",
     "Every docstring of a bound module, class, function, method or property appears as the documentation of its binding with the same words in the same order, and with documentation disabled none appears. No docstring can alter the generated code or introduce a code block that documentation tests would execute.",
     ["inputs", "configurations"],
     "all docstrings up to a bounded length over an alphabet of significant fragments (quotes, backslashes, comment markers, fences, indentation, blank lines, non-ASCII), in every position",
     "Two one-line docstrings are compared as text.",
     [E + "utils/text.rs", E + "syntax/module.rs", E + "syntax/class.rs", E + "syntax/function.rs", E + "syntax/property.rs"],
     [("formatting", E + "utils/text.rs format_docstring")],
     ["doc attributes of the generated items"])

prop("C11", "Output depends only on the set of requested modules",
     "Any history of requests that succeeds for the same set of modules with the same configuration generates the same bindings: the order of requests, duplicates, batching, requesting a package together with its submodules, failed requests in between and earlier generations make no difference. Repeating the same history gives byte-identical output.",
     ["histories"],
     "all request histories up to length four over an alphabet of related and unrelated modules, through every request method, with failing requests and interleaved generations",
     "No test adds more than one module or generates twice.",
     [E + "codegen.rs", E + "syntax/module.rs"],
     [("merging and canonicalisation", E + "codegen.rs merge_duplicate_modules, canonicalize")],
     ["tokens returned by Codegen::generate"],
     [("modules", "modules requested so far", E + "codegen.rs Codegen"), ("embedded_source_code", "sources of modules given as text", E + "codegen.rs Codegen")])

prop("C12", "Python's output streams are always restored",
     "After any request, successful or failed, sys.stdout and sys.stderr are the very objects they were before, whichever Python callback raised and at whichever point. While a request runs, Python output is hidden exactly on the streams the configuration says, and printing never changes what is generated.",
     ["fault_sequences", "configurations", "histories"],
     "every callback the analysis makes into Python x every kind of behaviour there (print, write to a stream, raise, raise a non-Exception), for all four suppression settings and for sequences of requests",
     "No test looks at the streams, and the failing paths are not exercised.",
     [E + "utils/io.rs", E + "codegen.rs"],
     [("with_suppressed_python_output", E + "utils/io.rs")],
     ["identity of sys.stdout/sys.stderr after each request", "text received by them", "generated bindings"],
     [("sys.stdout/sys.stderr", "streams of the embedded interpreter", "CPython")])

prop("C13", "Analysing a module leaves Python's state unchanged",
     "Requesting and generating bindings never changes the analysed modules: their attributes, classes, functions, annotations and values are the same objects with the same contents before and after, and nothing in them is called other than what attribute access itself runs.",
     ["inputs", "histories"],
     "all module shapes of a grammar with instrumented members, for all histories of up to three requests and all configurations flags",
     "No test inspects the Python module after generation.",
     [E + "syntax/module.rs", E + "syntax/function.rs", E + "syntax/common/attribute_variant.rs", E + "syntax/property.rs"],
     [("read-only inspection", E + "syntax/module.rs parse, extract_prelude")],
     ["snapshots of the module namespace before and after", "log of calls made into instrumented members"])

prop("C14", "Embedded source is exact and makes the bindings usable",
     "For a module given as source text, the generated embedding function carries that text byte for byte; after calling it once in a fresh interpreter the module is importable under exactly the given name (dotted and keyword names included) and every binding works. Modules requested by name never get an embedding function.",
     ["inputs", "histories"],
     "all source texts over an alphabet of significant fragments x all name shapes x histories mixing source and named modules",
     "One embedding text is compared for three benign sources under plain names; it is never executed.",
     [E + "codegen.rs", E + "syntax/module.rs"],
     [("embedding function", E + "syntax/module.rs generate"), ("source registry", E + "codegen.rs module_from_str, generate")],
     ["embedded constant", "sys.modules and bindings after calling the embedding function"])

prop("C15", "All front ends produce the same bindings or fail cleanly",
     "For the same modules the library, its build-script helper, the command line tool (to stdout and to a file, whose missing directories it creates) and the macro yield the same Rust tokens. When a module cannot be imported or generation fails, every front end reports failure and leaves existing output files untouched.",
     ["inputs", "histories", "fault_sequences"],
     "all module lists up to length three (valid, failing, duplicate, dotted) x all front ends x all states of the output path",
     "CLI tests only check that two invocations exit successfully.",
     ["pyo3_bindgen_cli/src/main.rs", "pyo3_bindgen_macros/src/lib.rs", "pyo3_bindgen_macros/src/parser.rs", E + "codegen.rs"],
     [("Codegen::build", E + "codegen.rs"), ("CLI main", "pyo3_bindgen_cli/src/main.rs"), ("import_python", "pyo3_bindgen_macros/src/lib.rs")],
     ["stdout, output files and exit codes of the tools"])

prop("C16", "Re-exports and preludes name the same Python object",
     "Every re-export and every prelude entry in the bindings resolves to an item whose Python origin is the object the re-exporting module exposes under that name. A package re-exports every public class and function of its own submodules that it exposes under a public name. A member listed in __all__ that is defined in the module's own package and has an item of its own in the module is listed in the generated prelude, and the prelude lists nothing else (there is none if __all__ merely lists all public names).",
     ["programs"],
     "all re-export graphs over a package of three modules: every import form, alias, __all__ shape and member kind",
     "No test contains an import that is re-exported or an __all__ list.",
     [E + "syntax/import.rs", E + "syntax/module.rs", E + "syntax/common/path.rs"],
     [("Import::generate", E + "syntax/import.rs"), ("extract_prelude, generate_prelude", E + "syntax/module.rs")],
     ["use items of the generated bindings and what they resolve to"])

prop("C17", "Property bindings read and write the live attribute",
     "The getter of a module variable or class property reads the current Python value at each call and its setter makes exactly that value visible to Python code; every variable of a module and every property with a Python setter has a setter (unless another member is itself named set_<name>), and read-only properties have none. Errors raised by Python getters and setters are propagated.",
     ["histories", "inputs"],
     "all sequences up to length four of reads and writes from Rust and from Python over module variables and class properties of every value type",
     "The golden test compares one getter/setter text; nothing is executed and no sequence of reads and writes is tried.",
     [E + "syntax/property.rs"],
     [("generate_getter/generate_setter", E + "syntax/property.rs"), ("mutability", E + "syntax/property.rs parse")],
     ["values seen from both sides after each step"])

prop("C18", "Concurrent generations do not affect each other",
     "When several threads of one process generate bindings at the same time, each obtains the same result as it would alone, whatever the interleaving of their Python callbacks. After the last of them finishes, sys.stdout and sys.stderr are the original objects.",
     ["schedules"],
     "all interleavings, at the points where analysis hands control to Python code, of two and three threads each analysing a module with up to three such points, with equal and with different suppression settings and with failures",
     "All tests that touch the engine run it from one thread at a time per process.",
     [E + "utils/io.rs", E + "codegen.rs"],
     [("with_suppressed_python_output", E + "utils/io.rs")],
     ["tokens per thread", "identity of the streams at the end"],
     [("sys.stdout/sys.stderr", "process-wide streams swapped during analysis", E + "utils/io.rs")])

prop("C19", "Dependencies add exactly the modules that are imported from",
     "With the generation of dependencies enabled, the bindings are those of the same request without it, extended by the modules from which the requested modules take public classes, functions, methods and modules of other packages, each bound as if it had been requested itself. Nothing else is added (no dependencies of dependencies, no private or blocklisted modules) and nothing is lost or changed.",
     ["programs", "configurations"],
     "all import forms, alone and in pairs, in every kind of importing module x request sets x settings",
     "No test switches the generation of dependencies on.",
     [E + "codegen.rs", E + "syntax/import.rs", E + "syntax/module.rs"],
     [("Codegen::parse_dependencies", E + "codegen.rs"), ("ImportType::from_paths", E + "syntax/import.rs")],
     ["item tree of the generated bindings"])

prop("C20", "Requests fail exactly if Python cannot import, with Python's own exception",
     "A request for a module succeeds exactly if Python can import a module under that very name (for source text: if it can be run); otherwise it returns the exception that Python raised, unchanged (the same object with its arguments, cause and traceback), whatever its type, and never panics. In a list of modules the first failure is the one reported, what was requested before can still be used through a clone, and generating or building bindings of no module, or of one that cannot be named in Rust, is an error.",
     ["inputs", "fault_sequences", "histories"],
     "every exception kind at every place of an import x request operations x stream settings; every spelling of a module name; all lists of up to three requests",
     "No test requests a module that cannot be imported.",
     [E + "codegen.rs", E + "utils/error.rs", E + "utils/io.rs", E + "syntax/module.rs"],
     [("Codegen::module_name, module_names, module_from_str, generate", E + "codegen.rs"), ("PyBindgenError", E + "utils/error.rs")],
     ["the returned PyBindgenError and the Python exception it carries"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
