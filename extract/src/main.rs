//! extract REPO SPECDIR OUT.rs OUT.json KEY,KEY,..|ALL
//!
//! Reads /repo/src, lowers every function that has a contract in SPECDIR/*.vs to Verus, and
//! writes one file: the prelude, the lemmas, the types and the functions.  Functions not listed
//! are emitted with their contract only.
mod cells;
mod deps;
mod lower;
mod norm;
mod rel;
use lower::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use syn::spanned::Spanned;
use syn::*;

struct Func {
    sig: Signature,
    body: Block,
    self_ty: Option<String>,
    assoc: HashMap<String, Type>,
    bp_num: bool,
    file: String,
    line: usize,
}

fn name_of(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => "?".into(),
    }
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| quote::ToTokens::to_token_stream(a).to_string().replace(' ', "") == "#[cfg(test)]")
}

struct Src {
    fns: BTreeMap<String, Func>,
    structs: BTreeMap<String, (ItemStruct, bool)>,
    enums: BTreeMap<String, ItemEnum>,
    dup: HashSet<String>,
    consts: BTreeMap<String, Expr>,
}

impl Src {
    fn add(&mut self, k: String, f: Func) {
        if self.fns.insert(k.clone(), f).is_some() {
            self.dup.insert(k);
        }
    }
    fn file(&mut self, path: &str, rel: &str) -> std::result::Result<(), String> {
        let t = fs::read_to_string(path).map_err(|e| e.to_string())?;
        let f = parse_file(&t).map_err(|e| format!("{path}: {e}"))?;
        let bp_num = f.items.iter().any(|i| matches!(i, Item::Use(u) if {
            let t = quote::ToTokens::to_token_stream(u).to_string().replace(' ', "");
            t.contains("bellpepper::gadgets::num::{AllocatedNum,Num}") || t.contains("gadgets::num::Num;")
        }));
        let module = rel.rsplit('/').next().unwrap().trim_end_matches(".rs").to_string();
        for i in &f.items {
            match i {
                Item::Struct(s) if !is_test(&s.attrs) => {
                    self.structs.insert(s.ident.to_string(), (s.clone(), bp_num));
                }
                Item::Const(c) if !is_test(&c.attrs) => {
                    self.consts.insert(c.ident.to_string(), (*c.expr).clone());
                }
                Item::Enum(e) if !is_test(&e.attrs) => {
                    self.enums.insert(e.ident.to_string(), e.clone());
                }
                Item::Fn(x) if !is_test(&x.attrs) => {
                    let func = |_: ()| Func { sig: x.sig.clone(), body: (*x.block).clone(), self_ty: None, assoc: HashMap::new(), bp_num, file: rel.into(), line: x.span().start().line };
                    self.add(x.sig.ident.to_string(), func(()));
                    self.add(format!("{module}::{}", x.sig.ident), func(()));
                }
                Item::Impl(im) if !is_test(&im.attrs) => {
                    let ty = name_of(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|t| {
                        let s = t.1.segments.last().unwrap();
                        let arg = match &s.arguments {
                            PathArguments::AngleBracketed(a) => match a.args.first() {
                                Some(GenericArgument::Type(t)) => format!("<{}>", name_of(t)),
                                _ => String::new(),
                            },
                            _ => String::new(),
                        };
                        format!("{}{arg}", s.ident)
                    });
                    let mut assoc = HashMap::new();
                    for it in &im.items {
                        if let ImplItem::Type(t) = it {
                            assoc.insert(t.ident.to_string(), t.ty.clone());
                        }
                    }
                    for it in &im.items {
                        if let ImplItem::Const(c) = it {
                            self.consts.insert(format!("{ty}::{}", c.ident), c.expr.clone());
                        }
                        if let ImplItem::Fn(x) = it {
                            let k = match &tr {
                                None => format!("{ty}::{}", x.sig.ident),
                                Some(t) => format!("{ty} as {t}::{}", x.sig.ident),
                            };
                            self.add(k, Func { sig: x.sig.clone(), body: x.block.clone(), self_ty: Some(ty.clone()), assoc: assoc.clone(), bp_num, file: rel.into(), line: x.span().start().line });
                        }
                    }
                }
                Item::Trait(t) => {
                    for it in &t.items {
                        if let TraitItem::Fn(x) = it {
                            if let Some(b) = &x.default {
                                self.add(format!("{}::{}", t.ident, x.sig.ident), Func { sig: x.sig.clone(), body: b.clone(), self_ty: Some("G".into()), assoc: HashMap::new(), bp_num, file: rel.into(), line: x.span().start().line });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
}

fn walk(d: &str, out: &mut Vec<String>) {
    let mut es: Vec<_> = fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        let s = p.to_string_lossy().to_string();
        if p.is_dir() {
            walk(&s, out);
        } else if s.ends_with(".rs") {
            out.push(s);
        }
    }
}

enum Piece {
    Types(String),
    Raw(String),
    Fn(Sidecar, String),
}

fn parse_spec(text: &str) -> Vec<Piece> {
    let mut out: Vec<Piece> = vec![];
    let mut cur = String::new();
    for l in text.lines() {
        if let Some(d) = l.strip_prefix('#').filter(|d| !d.starts_with('[')) {
            let (d, arg) = d.split_once(' ').unwrap_or((d, ""));
            let arg = arg.trim().to_string();
            let arg2 = arg.clone();
            match d {
                "rs" => out.push(Piece::Raw(String::new())),
                "fn" => out.push(Piece::Fn(Sidecar { key: arg, ret: "res".into(), ..Default::default() }, String::new())),
                "impl" | "attrs" | "ret" | "as" => {
                    if let Some(Piece::Fn(s, imp)) = out.last_mut() {
                        match d {
                            "impl" => *imp = arg,
                            "attrs" => s.attrs = arg,
                            "as" => s.params = arg,
                            _ => s.ret = arg,
                        }
                    }
                    continue;
                }
                "cells" => {
                    if let Some(Piece::Fn(s, _)) = out.last_mut() {
                        s.cells = true;
                    }
                    continue;
                }
                "types" => out.push(Piece::Types(arg)),
                _ => {}
            }
            cur = if arg2.is_empty() || d == "fn" { d.to_string() } else { format!("{d} {arg2}") };
            continue;
        }
        match out.last_mut() {
            Some(Piece::Raw(t)) => {
                t.push_str(l);
                t.push('\n');
            }
            Some(Piece::Fn(s, _)) => {
                let dst = if cur == "requires" {
                    &mut s.requires
                } else if cur == "ensures" {
                    &mut s.ensures
                } else if cur == "items" {
                    &mut s.sig_extra
                } else if let Some(h) = cur.strip_prefix("hook ") {
                    s.hooks.entry(h.to_string()).or_default()
                } else {
                    continue;
                };
                dst.push_str(l);
                dst.push('\n');
            }
            Some(Piece::Types(_)) | None => {}
        }
    }
    out
}

/// the types of the shared cell, as the source declares them
const REJ: &str = "#[verifier::reject_recursive_types(T)]\n#[verifier::reject_recursive_types(F)]\n";
fn cell_types(src: &Src, names: &str) -> std::result::Result<String, String> {
    let mut o = String::new();
    for n in names.split_whitespace() {
        if let Some(e) = src.enums.get(n) {
            let mut e = e.clone();
            e.attrs.clear();
            e.vis = syn::parse_quote!(pub);
            o.push_str(&format!("{REJ}{}\n", quote::ToTokens::to_token_stream(&e)));
        } else if let Some((s, _)) = src.structs.get(n) {
            let d = s.attrs.iter().map(|a| quote::ToTokens::to_token_stream(a).to_string()).collect::<String>();
            if !d.contains("Clone") {
                return Err(format!("struct {n} does not derive Clone"));
            }
            let mut fs_ = String::new();
            let mut cl = String::new();
            for f in &s.fields {
                let name = f.ident.as_ref().map(|x| x.to_string()).unwrap_or_default();
                fs_.push_str(&format!("    pub {name}: {},\n", cells::field(&f.ty)?));
                cl.push_str(&format!("{name}: self.{name}.cl(), "));
            }
            o.push_str(&format!("{REJ}pub struct {n}<T, F> {{\n{fs_}}}\nimpl<T, F> {n}<T, F> {{ pub fn clone(&self) -> (r: Self) ensures r == *self {{ {n} {{ {cl} }} }} }}\n"));
        } else {
            return Err(format!("type {n} not found"));
        }
    }
    Ok(o)
}

/// each file of contracts becomes a module of its own (the verifier works on modules side by side)
fn stem(f: &str) -> String {
    format!("m_{}", f.rsplit('/').next().unwrap().rsplit_once('.').unwrap().0)
}
fn open_mod(m: &str) -> String {
    format!("pub mod {m} {{\nuse super::*;\n{}use vstd::prelude::*;\nuse vstd::multiset::*;\nuse vstd::arithmetic::power2::*;\nuse vstd::arithmetic::div_mod::*;\nuse vstd::arithmetic::mul::*;\nverus! {{\nbroadcast use {{ax_scalar, ax_var}};\n}}\n", if m == "m_c_deps" || m == "m_b_lemmas" || m == "m_deps" { "" } else { "use super::Boolean;\n" })
}
fn close_mod(m: &str) -> String {
    format!("}} // mod {m}\npub use {m}::*;\n{}", if m == "m_c_deps" { "pub use m_c_deps::Boolean;\n" } else if m == "m_deps" { "pub use m_deps::Boolean;\n" } else { "" })
}
fn public(t: &str) -> String {
    let mut o = String::new();
    for l in t.lines() {
        if l.starts_with("proof fn") || l.starts_with("spec fn") || l.starts_with("open spec") || l.starts_with("closed spec") {
            o.push_str("pub ");
        }
        o.push_str(l);
        o.push('\n');
    }
    o
}

/// invariants on what a loop runs over, when the loop runs over something else now
fn drop_stale(body: &str, gone: &[String]) -> String {
    let is = |c: char| c.is_alphanumeric() || c == '_';
    let mut names: Vec<String> = vec![];
    for w in body.split(|c| !is(c)) {
        if let Some((p, d)) = w.split_once("__") {
            if matches!(p, "lo" | "hi" | "s" | "k" | "n") && d.starts_with(|c: char| c.is_ascii_digit()) && !names.contains(&w.to_string()) {
                names.push(w.into());
            }
        }
    }
    names.retain(|n| !body.contains(&format!("let {n} ")) && !body.contains(&format!("let {n}:")) && !body.contains(&format!("let mut {n} ")));
    names.extend(gone.iter().cloned());
    if names.is_empty() {
        return body.into();
    }
    let mut out = String::new();
    for l in body.lines() {
        let code = l.split("*/").last().unwrap_or(l);
        if names.iter().any(|n| l.contains(n.as_str())) && l.trim_end().ends_with(',') && !code.contains("proof {") && !code.contains("let ") {
            let mut depth = 0i32;
            let mut cl = String::new();
            for c in l.chars() {
                cl.push(c);
                match c {
                    '(' | '[' | '{' => depth += 1,
                    ')' | ']' | '}' => depth -= 1,
                    ',' if depth == 0 => {
                        let gone = names.iter().any(|n| cl.split(|c| !is(c)).any(|w| w == n));
                        if !gone {
                            out.push_str(&cl);
                        }
                        cl.clear();
                    }
                    _ => {}
                }
            }
            out.push_str(&cl);
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    out
}

fn load(repo: &str, problems: &mut Vec<String>) -> Src {
    let mut src = Src { fns: Default::default(), structs: Default::default(), enums: Default::default(), dup: Default::default(), consts: Default::default() };
    let mut files = vec![];
    walk(&format!("{repo}/src"), &mut files);
    for f in &files {
        let rel = f[repo.len() + 1..].to_string();
        if let Err(e) = src.file(f, &rel) {
            problems.push(e);
        }
    }
    src
}

/// the functions as they are lowered: helpers, constants and closures the contracts' tree does not have are inlined
struct Prepared {
    src: Src,
    names: serde_json::Value,
    inlined: BTreeMap<String, Vec<String>>,
    bnames: BTreeMap<String, Vec<String>>,
}
fn list(v: &serde_json::Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
}
fn prepare(repo: &str, spec: &str, problems: &mut Vec<String>) -> Prepared {
    let mut src = load(repo, problems);
    // what the tree the contracts were written for does not have
    let names: serde_json::Value = fs::read_to_string(format!("{spec}/names.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(json!({}));
    let base_fns: HashSet<String> = list(&names["functions"]).into_iter().collect();
    let base_consts: HashSet<String> = list(&names["constants"]).into_iter().collect();
    let mut helpers: HashMap<String, norm::Helper> = HashMap::new();
    let mut amb: HashSet<String> = HashSet::new();
    if !base_fns.is_empty() {
        for (k, f) in &src.fns {
            if base_fns.contains(k) || k.contains(" as ") || f.self_ty.as_deref() == Some("G") || src.dup.contains(k) {
                continue;
            }
            let h = norm::Helper { sig: f.sig.clone(), body: f.body.clone() };
            helpers.insert(k.clone(), h.clone());
            if f.sig.receiver().is_some() {
                let m = format!(".{}", f.sig.ident);
                if helpers.insert(m.clone(), h).is_some() {
                    amb.insert(m);
                }
            }
        }
    }
    for m in &amb {
        helpers.remove(m);
    }
    let consts: HashMap<String, Expr> = if base_fns.is_empty() { HashMap::new() } else { src.consts.iter().filter(|(k, _)| !base_consts.contains(*k)).map(|(k, v)| (k.clone(), v.clone())).collect() };
    // the functions as they are lowered
    let mut inlined: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut bnames: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let keys_all: Vec<String> = src.fns.keys().cloned().collect();
    for k in &keys_all {
        let f = src.fns.get_mut(k).unwrap();
        bnames.insert(k.clone(), norm::binders(&f.sig, &f.body));
        if base_fns.is_empty() {
            continue;
        }
        let base = list(&names["binders"][k]);
        let (mut hs, mut cs) = (helpers.clone(), consts.clone());
        norm::local_items(&mut f.body, &base, &mut hs, &mut cs);
        let mut inl = norm::Inline::new(&hs, f.self_ty.clone());
        inl.function(&f.sig, &mut f.body);
        if !inl.done.is_empty() {
            inlined.insert(k.clone(), inl.done.clone());
        }
        if !cs.is_empty() {
            syn::visit_mut::VisitMut::visit_block_mut(&mut norm::Consts { m: &cs, self_ty: f.self_ty.clone() }, &mut f.body);
        }
        syn::visit_mut::VisitMut::visit_block_mut(&mut norm::Counting, &mut f.body);
        if names["binders"].get(k).is_some() {
            let (mut s, mut b) = (f.sig.clone(), f.body.clone());
            norm::alpha(&mut s, &mut b, &base);
            f.sig = s;
            f.body = b;
        }
    }
    Prepared { src, names, inlined, bnames }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "deps" {
        return deps::main(&a[2], &a[3], &a[4], &a[5]);
    }
    if a[1] == "rel" {
        return rel::main(&a[2], &a[3], &a[4], &a[5]);
    }
    let (repo, spec, outp, outj, keys) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let keys: HashSet<String> = keys.split(',').map(|s| s.trim().to_string()).collect();
    let all = keys.contains("ALL");
    let mut problems: Vec<String> = vec![];
    let Prepared { src, names, inlined, bnames, .. } = prepare(repo, spec, &mut problems);
    let mut o = String::new();
    o.push_str(&fs::read_to_string(format!("{spec}/prelude.rs")).unwrap());
    o.push_str("\npub mod body {\nuse super::*;\nuse vstd::prelude::*;\nuse vstd::multiset::*;\nuse vstd::arithmetic::power2::*;\nuse vstd::arithmetic::div_mod::*;\nuse vstd::arithmetic::mul::*;\nverus! {\nbroadcast use {ax_scalar, ax_var};\n");
    // types
    let mut structs_ok = true;
    for n in ["BigNatParams", "BigNat", "Num", "Bit", "Bitvector", "Polynomial"] {
        match src.structs.get(n) {
            Some((s, bp)) => {
                let mut fs_ = String::new();
                let mut cl = String::new();
                for f in &s.fields {
                    let name = f.ident.as_ref().map(|x| x.to_string()).unwrap_or_default();
                    match ty_str(&f.ty, &None, *bp, &HashMap::new()) {
                        Ok(t) => fs_.push_str(&format!("    pub {name}: {t},\n")),
                        Err(e) => {
                            problems.push(format!("struct {n}: {e}"));
                            structs_ok = false;
                        }
                    }
                    cl.push_str(&format!("{name}: self.{name}.cl(), "));
                }
                o.push_str(&format!("pub struct {n} {{\n{fs_}}}\n"));
                let derives = s.attrs.iter().map(|a| quote::ToTokens::to_token_stream(a).to_string()).collect::<String>();
                if derives.contains("Clone") {
                    o.push_str(&format!("impl Cl for {n} {{ fn cl(&self) -> (r: Self) {{ {n} {{ {cl} }} }} }}\n"));
                }
            }
            None => {
                problems.push(format!("struct {n} not found"));
                structs_ok = false;
            }
        }
    }
    o.push_str("} // verus!\n");
    let mut lib: Vec<String> = fs::read_dir(spec).unwrap().map(|e| e.unwrap().path().to_string_lossy().to_string()).collect();
    lib.sort();
    let mut map = vec![];
    let mut lemma_ranges = vec![];
    for f in lib.iter().filter(|f| f.ends_with(".rs") && !f.ends_with("prelude.rs")) {
        let m = stem(f);
        o.push_str(&open_mod(&m));
        let start = o.lines().count() + 1;
        o.push_str(&public(&fs::read_to_string(f).unwrap()));
        o.push('\n');
        o.push_str(&close_mod(&m));
        lemma_ranges.push(json!({"file": f.rsplit('/').next().unwrap(), "start": start, "end": o.lines().count()}));
    }
    let mut seen = HashSet::new();
    let mut types_err: Option<String> = None;
    for f in lib.iter().filter(|f| f.ends_with(".vs")) {
        let m = stem(f);
        let text = fs::read_to_string(f).unwrap();
        let pieces = parse_spec(&text);
        // a file that stands alone is left out unless one of its functions is wanted
        if text.starts_with("#alone") && !all && !pieces.iter().any(|p| matches!(p, Piece::Fn(s, _) if keys.contains(&s.key))) {
            continue;
        }
        let cell_fns: Vec<String> = pieces.iter().filter_map(|p| match p { Piece::Fn(s, _) if s.cells => s.key.rsplit("::").next().map(|x| x.to_string()), _ => None }).collect();
        o.push_str(&open_mod(&m));
        o.push_str("verus! {\n");
        for p in pieces {
            match p {
                Piece::Raw(t) => o.push_str(&public(&t)),
                Piece::Types(t) => match cell_types(&src, &t) {
                    Ok(t) => o.push_str(&t),
                    Err(e) => types_err = Some(e),
                },
                Piece::Fn(side, imp) if side.cells => {
                    let want = all || keys.contains(&side.key);
                    seen.insert(side.key.clone());
                    let func = match src.fns.get(&side.key) {
                        Some(x) if !src.dup.contains(&side.key) => x,
                        _ => {
                            map.push(json!({"key": side.key, "verify": want, "error": "function not found in the source, or not unique"}));
                            continue;
                        }
                    };
                    let l = match (cells::function(&func.sig, &func.body, &cell_fns, &func.assoc), &types_err) {
                        (Ok(l), None) => l,
                        (Err(e), _) => {
                            map.push(json!({"key": side.key, "verify": want, "error": e}));
                            continue;
                        }
                        (_, Some(e)) => {
                            map.push(json!({"key": side.key, "verify": want, "error": e}));
                            continue;
                        }
                    };
                    let start = o.lines().count() + 1;
                    let lt = if l.params.contains("&'a ") { "<'a>" } else { "" };
                    let r = if l.ret.is_empty() { String::new() } else { format!(" -> ({}: {})", side.ret, l.ret) };
                    let attr = if want { String::new() } else { "#[verifier::external_body]\n".to_string() };
                    let body = if want { l.body.clone() } else { "{ unimplemented!() }\n".into() };
                    o.push_str(&format!("{imp} {{\n{attr}pub fn {}{lt}({}){r}\n", func.sig.ident, l.params));
                    if !side.requires.trim().is_empty() {
                        o.push_str(&format!("  requires\n{}", side.requires));
                    }
                    if !side.ensures.trim().is_empty() {
                        o.push_str(&format!("  ensures\n{}", side.ensures));
                    }
                    o.push_str(&body);
                    o.push_str("}\n");
                    map.push(json!({"key": side.key, "verify": want, "error": Option::<String>::None, "start": start, "end": o.lines().count(),
                        "file": func.file, "line": func.line, "shape": l.shape, "calls": l.calls, "spec": f.rsplit('/').next().unwrap()}));
                }
                Piece::Fn(side, imp) => {
                    let want = all || keys.contains(&side.key);
                    seen.insert(side.key.clone());
                    let func = match src.fns.get(&side.key) {
                        Some(x) if !src.dup.contains(&side.key) => x,
                        _ => {
                            map.push(json!({"key": side.key, "verify": want, "error": "function not found in the source, or not unique"}));
                            continue;
                        }
                    };
                    let mut lo = Lower::new(&side);
                    lo.bp_num = func.bp_num;
                    lo.self_ty = func.self_ty.clone();
                    lo.assoc = func.assoc.clone();
                    let mut err = None;
                    let (params, ret, body) = match lo.function(&func.sig, &func.body) {
                        Ok(x) => x,
                        Err(e) => {
                            err = Some(e);
                            // the contract alone may still be of use to callers
                            let mut lo2 = Lower::new(&side);
                            lo2.bp_num = func.bp_num;
                            lo2.self_ty = func.self_ty.clone();
                            lo2.assoc = func.assoc.clone();
                            match lo2.function(&func.sig, &Block { brace_token: Default::default(), stmts: vec![] }) {
                                Ok((p, r, _)) => (p, r, String::new()),
                                Err(_) => {
                                    map.push(json!({"key": side.key, "verify": want, "error": err}));
                                    continue;
                                }
                            }
                        }
                    };
                    let mut missing: Vec<String> = side.hooks.keys().filter(|k| !lo.used.contains(*k)).cloned().collect();
                    missing.sort();
                    if err.is_none() && !missing.is_empty() {
                        err = Some(format!("places the contract file refers to are gone: {}", missing.join("; ")));
                    }
                    let start = o.lines().count() + 1;
                    let verify = want && err.is_none();
                    let tr = !imp.is_empty() && imp.contains(" for ");
                    let hdr = if !imp.is_empty() { imp.clone() } else if let Some(t) = func.self_ty.as_ref().filter(|t| *t != "G") { format!("impl {t}") } else { String::new() };
                    if !hdr.is_empty() {
                        o.push_str(&format!("{hdr} {{\n{}", side.sig_extra));
                    }
                    if !verify {
                        o.push_str("#[verifier::external_body]\n");
                    }
                    if !side.attrs.is_empty() {
                        o.push_str(&format!("{}\n", side.attrs));
                    }
                    let fname = if side.params.is_empty() { func.sig.ident.to_string() } else { side.params.clone() };
                    let r = if ret.is_empty() || ret == "()" { String::new() } else { format!(" -> ({}: {ret})", side.ret) };
                    o.push_str(&format!("{}fn {fname}({params}){r}\n", if tr { "" } else { "pub " }));
                    if !side.requires.trim().is_empty() {
                        o.push_str(&format!("  requires\n{}", side.requires));
                    }
                    if !side.ensures.trim().is_empty() {
                        o.push_str(&format!("  ensures\n{}", side.ensures));
                    }
                    if verify {
                        let now: HashSet<String> = norm::binders(&func.sig, &func.body).into_iter().collect();
                        let gone: Vec<String> = list(&names["binders"][&side.key]).into_iter().filter(|n| !now.contains(n)).collect();
                        o.push_str(&drop_stale(&body, &gone));
                    } else {
                        o.push_str("{ unimplemented!() }\n");
                    }
                    if !hdr.is_empty() {
                        o.push_str("}\n");
                    }
                    map.push(json!({"key": side.key, "verify": want, "error": err, "start": start, "end": o.lines().count(),
                        "file": func.file, "line": func.line, "shape": lo.shape, "calls": lo.calls, "spec": f.rsplit('/').next().unwrap()}));
                }
            }
        }
        o.push_str("} // verus!\n");
        o.push_str(&close_mod(&m));
    }
    o.push_str("} // mod body\n");
    // a provided method that an implementation replaces is not the one under contract
    for m in ["mux_tree", "switch", "assert_equal", "inputize", "as_nums"] {
        for k in src.fns.keys() {
            if k.ends_with(&format!(" as Gadget::{m}")) {
                problems.push(format!("Gadget::{m}: replaced by {k}"));
            }
        }
    }
    if !all {
        for k in &keys {
            if !seen.contains(k) {
                problems.push(format!("no contract for {k}"));
            }
        }
    }
    if let Ok(t) = fs::read_to_string(outp) {
        if t == o {
            // keep the time stamp
        } else {
            fs::write(outp, &o).unwrap();
        }
    } else {
        fs::write(outp, &o).unwrap();
    }
    fs::write(outj, serde_json::to_string_pretty(&json!({"functions": map, "problems": problems, "structs_ok": structs_ok, "lemmas": lemma_ranges,
        "names": {"functions": src.fns.keys().collect::<Vec<_>>(), "constants": src.consts.keys().collect::<Vec<_>>(), "binders": bnames}, "inlined": inlined})).unwrap()).unwrap();
}
