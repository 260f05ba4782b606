//! extract deps BELLPEPPER_SRC SPECDIR OUT.rs OUT.json
//!
//! The contracts that spec/c_deps.rs gives to bellpepper's gadgets, put on the source of the
//! gadgets itself: abstract types become the declared ones, abstract functions the definitions in
//! spec/deps/bellpepper.vs, and every body left out is the lowered body from the source.
use crate::lower::*;
use crate::*;
use syn::visit_mut::VisitMut;

/// `&P`, `ref x` and `match *e` in terms of matching on references
struct Pats;
struct StripPat {
    under: bool,
    copies: Vec<Ident>,
}
impl VisitMut for StripPat {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        match p {
            Pat::Reference(r) => {
                let mut inner = (*r.pat).clone();
                let u = self.under;
                self.under = true;
                self.visit_pat_mut(&mut inner);
                self.under = u;
                *p = inner;
            }
            Pat::Ident(i) => {
                if i.by_ref.is_some() {
                    i.by_ref = None;
                } else if self.under && !self.copies.contains(&i.ident) {
                    self.copies.push(i.ident.clone());
                }
            }
            _ => syn::visit_mut::visit_pat_mut(self, p),
        }
    }
}
impl VisitMut for Pats {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        syn::visit_mut::visit_expr_match_mut(self, m);
        let mut under = false;
        if let Expr::Unary(u) = &*m.expr {
            if matches!(u.op, UnOp::Deref(_)) {
                under = true;
                let e = (*u.expr).clone();
                m.expr = Box::new(e);
            }
        }
        for a in &mut m.arms {
            let mut s = StripPat { under, copies: vec![] };
            s.visit_pat_mut(&mut a.pat);
            if !s.copies.is_empty() {
                let c = s.copies;
                let b = a.body.clone();
                let b: Block = match *b {
                    Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block,
                    b => parse_quote!({ #b }),
                };
                let st = b.stmts;
                a.body = parse_quote!({ #(let #c = *#c;)* #(#st)* });
            }
        }
    }
}
/// bellpepper's Num is not the repository's
struct Rename;
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "Num" {
            *i = Ident::new("BpNum", i.span());
        }
    }
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn main(dep: &str, spec: &str, outp: &str, outj: &str) {
    let mut src = Src { fns: Default::default(), structs: Default::default(), enums: Default::default(), dup: Default::default(), consts: Default::default() };
    let mut problems: Vec<String> = vec![];
    for f in ["gadgets/num.rs", "gadgets/boolean.rs"] {
        if let Err(e) = src.file(&format!("{dep}/{f}"), f) {
            problems.push(e);
        }
    }
    let keys: Vec<String> = src.fns.keys().cloned().collect();
    for k in keys {
        let mut f = src.fns.remove(&k).unwrap();
        let mut nk = k.clone();
        if f.file.ends_with("num.rs") {
            Rename.visit_signature_mut(&mut f.sig);
            Rename.visit_block_mut(&mut f.body);
            nk = k.replace("AllocatedNum", "\u{1}").replace("Num", "BpNum").replace('\u{1}', "AllocatedNum");
            f.self_ty = f.self_ty.map(|t| if t == "Num" { "BpNum".into() } else { t });
        }
        f.bp_num = false;
        Pats.visit_block_mut(&mut f.body);
        src.fns.insert(nk, f);
    }
    let vs = fs::read_to_string(format!("{spec}/deps/bellpepper.vs")).unwrap_or_default();
    let defs: HashMap<String, String> = vs.lines().filter_map(|l| l.strip_prefix("//= ")).filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let mut sides: BTreeMap<String, Sidecar> = BTreeMap::new();
    let mut raw = String::new();
    for p in parse_spec(&vs) {
        match p {
            Piece::Raw(t) => raw.push_str(&t),
            Piece::Fn(s, _) => {
                sides.insert(s.key.clone(), s);
            }
            _ => {}
        }
    }
    let mut map = vec![];
    let mut o = fs::read_to_string(format!("{spec}/prelude.rs")).unwrap();
    o.push_str("\npub mod body {\nuse super::*;\nuse vstd::prelude::*;\nuse vstd::multiset::*;\nuse vstd::arithmetic::power2::*;\nuse vstd::arithmetic::div_mod::*;\nuse vstd::arithmetic::mul::*;\n");
    o.push_str(&open_mod("m_b_lemmas"));
    o.push_str(&public(&fs::read_to_string(format!("{spec}/b_lemmas.rs")).unwrap()));
    o.push_str(&close_mod("m_b_lemmas"));
    o.push_str(&open_mod("m_deps"));
    o.push_str("verus! {\n");
    o.push_str(&public(&raw));
    o.push_str("} // verus!\n");
    // lowers one function: parameters, result type and body
    let lower = |key: &str, map: &mut Vec<serde_json::Value>, at: usize| -> Option<(String, String, String)> {
        let empty = Sidecar { key: key.into(), ret: "r".into(), ..Default::default() };
        let side = sides.get(key).unwrap_or(&empty);
        let f = match src.fns.get(key) {
            Some(f) if !src.dup.contains(key) => f,
            _ => {
                map.push(json!({"key": key, "error": "function not found in the dependency's source"}));
                return None;
            }
        };
        let mut lo = Lower::new(side);
        lo.self_ty = f.self_ty.clone();
        match lo.function(&f.sig, &f.body) {
            Ok((p, r, b)) => {
                let missing: Vec<String> = side.hooks.keys().filter(|k| !lo.used.contains(*k)).cloned().collect();
                let err = if missing.is_empty() { None } else { Some(format!("places the contract refers to are gone: {}", missing.join("; "))) };
                map.push(json!({"key": key, "error": err, "start": at, "file": f.file, "line": f.line}));
                Some((p, r, b))
            }
            Err(e) => {
                map.push(json!({"key": key, "error": e}));
                None
            }
        }
    };
    let text = fs::read_to_string(format!("{spec}/c_deps.rs")).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let mut ty = String::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if let Some(r) = t.strip_prefix("impl ") {
            ty = r.split(|c: char| !c.is_alphanumeric()).next().unwrap().into();
        }
        if t == "#[verifier::external_body]" {
            let mut head = String::new();
            let mut k = i + 1;
            loop {
                head.push_str(lines[k]);
                head.push('\n');
                if lines[k].contains("{ unimplemented!() }") || lines[k].contains("{ x: u64 }") {
                    break;
                }
                k += 1;
            }
            i = k + 1;
            if let Some(n) = head.trim().strip_prefix("pub struct ").and_then(|x| x.strip_suffix(" { x: u64 }")) {
                let real = if n == "BpNum" { "Num" } else { n };
                let mut dup = |s: String| o.push_str(&s);
                if let Some(e) = src.enums.get(real) {
                    let mut e = e.clone();
                    e.attrs.clear();
                    for v in &mut e.variants {
                        v.attrs.clear();
                    }
                    dup(format!("{}\n", quote::ToTokens::to_token_stream(&e)));
                } else if let Some((s, _)) = src.structs.get(real) {
                    let mut fs_ = String::new();
                    for f in &s.fields {
                        match ty_str(&f.ty, &None, false, &HashMap::new()) {
                            Ok(t) => fs_.push_str(&format!("pub {}: {t}, ", f.ident.as_ref().unwrap())),
                            Err(e) => problems.push(e),
                        }
                    }
                    dup(format!("pub struct {n} {{ {fs_}}}\n"));
                } else {
                    problems.push(format!("type {n} not found"));
                }
                continue;
            }
            let name: String = head.trim().strip_prefix("pub fn ").or(head.trim().strip_prefix("fn ")).unwrap_or("").chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            let at = o.lines().count() + 1;
            if ty == "Boolean" && name == "Constant" {
                // the constructor
                o.push_str(&head.replace("fn Constant(", "fn Constant__(").replace("{ unimplemented!() }", "{ Boolean::Constant(b) }"));
                continue;
            }
            let key = if name == "tfrom" {
                let seg = lines[..k].iter().rev().find(|l| l.starts_with("impl TFrom<")).unwrap();
                let from = seg["impl TFrom<".len()..].split('>').next().unwrap().to_string();
                let to: String = seg.split(" for ").nth(1).unwrap().chars().take_while(|c| c.is_alphanumeric()).collect();
                format!("{to} as From<{from}>::from")
            } else {
                format!("{ty}::{name}")
            };
            match lower(&key, &mut map, at) {
                Some((p, _, b)) => {
                    let a = head.find('(').unwrap();
                    let mut depth = 0;
                    let mut e = a;
                    for (j, c) in head[a..].char_indices() {
                        match c {
                            '(' => depth += 1,
                            ')' => {
                                depth -= 1;
                                if depth == 0 {
                                    e = a + j;
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                    if squeeze(&head[a + 1..e]) != squeeze(&p) {
                        problems.push(format!("{key}: the contract is for ({}), the source has ({p})", &head[a + 1..e]));
                    }
                    o.push_str(&head.replace("{ unimplemented!() }", &b));
                    let e = o.lines().count();
                    if let Some(m) = map.last_mut() {
                        m["end"] = json!(e);
                    }
                }
                None => o.push_str(&format!("#[verifier::external_body]\n{head}")),
            }
            continue;
        }
        if let Some(r) = t.strip_prefix("pub uninterp spec fn ") {
            let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            match defs.get(&format!("{ty}::{n}")) {
                Some(d) => o.push_str(&format!("pub open spec fn {} {{ {d} }}\n", r.trim_end_matches(';'))),
                None => problems.push(format!("no definition of {ty}::{n}")),
            }
            i += 1;
            continue;
        }
        if t.starts_with("impl Cl for ") {
            let n: String = t["impl Cl for ".len()..].chars().take_while(|c| c.is_alphanumeric()).collect();
            let at = o.lines().count() + 1;
            let body = if let Some((s, _)) = src.structs.get(&n) {
                let derived = s.attrs.iter().any(|a| quote::ToTokens::to_token_stream(a).to_string().contains("Clone"));
                let key = format!("{n} as Clone::clone");
                if derived {
                    map.push(json!({"key": key, "error": null, "start": at, "end": at, "file": "derived", "line": 0}));
                    Some(format!("{{ {n} {{ {} }} }}", s.fields.iter().map(|f| format!("{0}: self.{0}.cl()", f.ident.as_ref().unwrap())).collect::<Vec<_>>().join(", ")))
                } else {
                    lower(&key, &mut map, at).map(|x| x.2)
                }
            } else if let Some(e) = src.enums.get(&n) {
                let derived = e.attrs.iter().any(|a| quote::ToTokens::to_token_stream(a).to_string().contains("Clone"));
                map.push(json!({"key": format!("{n} as Clone::clone"), "error": if derived { None } else { Some("not derived") }, "start": at, "end": at, "file": "derived", "line": 0}));
                Some(format!("{{ match self {{ {} }} }}", e.variants.iter().map(|v| format!("{n}::{0}(x) => {n}::{0}(x.cl()),", v.ident)).collect::<String>()))
            } else {
                None
            };
            match body {
                Some(b) => o.push_str(&t.replace("#[verifier::external_body]", "").replace("{ unimplemented!() }", &b)),
                None => o.push_str(t),
            }
            o.push('\n');
            let e = o.lines().count();
            if let Some(m) = map.last_mut() {
                m["end"] = json!(e);
            }
            i += 1;
            continue;
        }
        o.push_str(l);
        o.push('\n');
        i += 1;
    }
    // functions the others call
    o.push_str("verus! {\n");
    for (k, s) in &sides {
        if s.ensures.trim().is_empty() {
            continue;
        }
        let at = o.lines().count() + 1;
        if let Some((p, r, b)) = lower(k, &mut map, at) {
            let (t, n) = k.split_once("::").unwrap();
            o.push_str(&format!("impl {t} {{\npub fn {n}({p}) -> ({}: {r})\n", s.ret));
            if !s.requires.trim().is_empty() {
                o.push_str(&format!("  requires\n{}", s.requires));
            }
            o.push_str(&format!("  ensures\n{}{b}}}\n", s.ensures));
            let e = o.lines().count();
            if let Some(m) = map.last_mut() {
                m["end"] = json!(e);
            }
        }
    }
    o.push_str("} // verus!\n");
    o.push_str(&close_mod("m_deps"));
    o.push_str("} // mod body\n");
    fs::write(outp, &o).unwrap();
    fs::write(outj, serde_json::to_string_pretty(&json!({"functions": map, "problems": problems})).unwrap()).unwrap();
}
