//! Turns generated bindings (a token stream) into a JSON description of the items a user can see.
//! Only the *interface* of the generated code is described (names, signatures, docs, re-exports);
//! bodies are kept as opaque text for reports.
use quote::ToTokens;
use serde_json::{json, Value};

fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

fn vis(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}

fn doc(attrs: &[syn::Attribute]) -> Value {
    let mut out: Vec<String> = Vec::new();
    for a in attrs {
        if a.path().is_ident("doc") {
            if let syn::Meta::NameValue(nv) = &a.meta {
                if let syn::Expr::Lit(l) = &nv.value {
                    if let syn::Lit::Str(s) = &l.lit {
                        out.push(s.value());
                        continue;
                    }
                }
                out.push(format!("<non-literal {}>", toks(&nv.value)));
            }
        }
    }
    if out.is_empty() {
        Value::Null
    } else {
        Value::String(out.join("\n"))
    }
}

fn sig(s: &syn::Signature, attrs: &[syn::Attribute], is_pub: bool, body: Option<String>) -> Value {
    let mut recv = Value::Null;
    let mut params = Vec::new();
    for i in &s.inputs {
        match i {
            syn::FnArg::Receiver(r) => recv = json!(toks(r)),
            syn::FnArg::Typed(t) => params.push(json!([toks(&t.pat), toks(&t.ty)])),
        }
    }
    let ret = match &s.output {
        syn::ReturnType::Default => String::from("()"),
        syn::ReturnType::Type(_, t) => toks(t),
    };
    json!({"kind": "fn", "name": s.ident.to_string(), "pub": is_pub, "recv": recv, "params": params,
           "ret": ret, "doc": doc(attrs), "body": body})
}

fn use_tree(t: &syn::UseTree, prefix: &mut Vec<String>, out: &mut Vec<Value>) {
    match t {
        syn::UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            use_tree(&p.tree, prefix, out);
            prefix.pop();
        }
        syn::UseTree::Name(n) => {
            let mut p = prefix.clone();
            p.push(n.ident.to_string());
            out.push(json!({"path": p, "as": n.ident.to_string()}));
        }
        syn::UseTree::Rename(n) => {
            let mut p = prefix.clone();
            p.push(n.ident.to_string());
            out.push(json!({"path": p, "as": n.rename.to_string()}));
        }
        syn::UseTree::Glob(_) => {
            let mut p = prefix.clone();
            p.push("*".into());
            out.push(json!({"path": p, "as": "*"}));
        }
        syn::UseTree::Group(g) => {
            for i in &g.items {
                use_tree(i, prefix, out);
            }
        }
    }
}

/// String literals inside an item, in source order (used only to read the embedded source constant).
fn consts(block: &syn::Block) -> Vec<Value> {
    let mut out = Vec::new();
    for st in &block.stmts {
        if let syn::Stmt::Item(syn::Item::Const(c)) = st {
            if let syn::Expr::Lit(l) = &*c.expr {
                if let syn::Lit::Str(s) = &l.lit {
                    out.push(json!({"name": c.ident.to_string(), "value": s.value()}));
                }
            }
        }
    }
    out
}

pub fn items(list: &[syn::Item]) -> Vec<Value> {
    let mut out = Vec::new();
    for it in list {
        match it {
            syn::Item::Mod(m) => {
                let sub = m.content.as_ref().map(|c| items(&c.1)).unwrap_or_default();
                out.push(json!({"kind": "mod", "name": m.ident.to_string(), "pub": vis(&m.vis),
                                "doc": doc(&m.attrs), "items": sub}));
            }
            syn::Item::Fn(f) => {
                let mut v = sig(&f.sig, &f.attrs, vis(&f.vis), Some(toks(&f.block)));
                v["consts"] = Value::Array(consts(&f.block));
                out.push(v);
            }
            syn::Item::Struct(s) => out.push(json!({"kind": "struct", "name": s.ident.to_string(),
                "pub": vis(&s.vis), "doc": doc(&s.attrs)})),
            syn::Item::Enum(s) => out.push(json!({"kind": "enum", "name": s.ident.to_string(),
                "pub": vis(&s.vis), "doc": doc(&s.attrs)})),
            syn::Item::Type(t) => out.push(json!({"kind": "type", "name": t.ident.to_string(),
                "pub": vis(&t.vis), "ty": toks(&t.ty), "doc": doc(&t.attrs)})),
            syn::Item::Const(t) => out.push(json!({"kind": "const", "name": t.ident.to_string(),
                "pub": vis(&t.vis), "doc": doc(&t.attrs)})),
            syn::Item::Static(t) => out.push(json!({"kind": "static", "name": t.ident.to_string(),
                "pub": vis(&t.vis), "doc": doc(&t.attrs)})),
            syn::Item::Use(u) => {
                let mut paths = Vec::new();
                use_tree(&u.tree, &mut Vec::new(), &mut paths);
                out.push(json!({"kind": "use", "pub": vis(&u.vis), "paths": paths,
                                "leading_colon": u.leading_colon.is_some()}));
            }
            syn::Item::Impl(i) => {
                let mut fns = Vec::new();
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        fns.push(sig(&f.sig, &f.attrs, vis(&f.vis), Some(toks(&f.block))));
                    }
                }
                out.push(json!({"kind": "impl", "self": toks(&i.self_ty),
                    "trait": i.trait_.as_ref().map(|t| toks(&t.1)), "fns": fns}));
            }
            syn::Item::Trait(t) => {
                let mut fns = Vec::new();
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        fns.push(sig(&f.sig, &f.attrs, false, None));
                    }
                }
                out.push(json!({"kind": "trait", "name": t.ident.to_string(), "pub": vis(&t.vis),
                    "doc": doc(&t.attrs), "fns": fns}));
            }
            syn::Item::Macro(m) => out.push(json!({"kind": "macro", "path": toks(&m.mac.path),
                "tokens": m.mac.tokens.to_string()})),
            other => out.push(json!({"kind": "other", "text": toks(other)})),
        }
    }
    out
}
