#!/bin/bash
# Generates bindings of py/ with the engine in the current directory (build.rs), compiles main.rs against them and runs it.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only PYO3_PYTHON=/usr/bin/python3.12 PYTHONDONTWRITEBYTECODE=1
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/py"
cp "$here/build.rs" "$work/"; cp "$here/main.rs" "$work/src/"
[ -d "$here/py" ] && cp -r "$here/py/." "$work/py/"
cp "$repo/Cargo.lock" "$work/"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
build = "build.rs"
[workspace]
[dependencies]
pyo3 = { version = "0.21", default-features = false, features = ["auto-initialize"] }
pyo3_bindgen_engine = { path = "$repo/pyo3_bindgen_engine" }
[build-dependencies]
pyo3 = { version = "0.21", default-features = false, features = ["auto-initialize"] }
pyo3_bindgen_engine = { path = "$repo/pyo3_bindgen_engine" }
T
export PYTHONPATH=$work/py
cd "$work" && cargo run -q --offline --target-dir "$work/target"
