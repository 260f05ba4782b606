//! extract rel REPO SPECDIR OUT.rs OUT.json
//!
//! The relational proof of C15: every function is lowered without any ghost text and doubled,
//! so that one function executes two runs side by side (a product program).  Its contract says
//! that two runs which agree in everything but the witness allocate and enforce the same.
use crate::lower::*;
use crate::*;
use quote::ToTokens;
use std::collections::HashMap as Map;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

type Res<T> = std::result::Result<T, String>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Low,
    High,
    Len,
}
struct Par {
    name: String,
    ty: String,
    kind: Kind,
    cs: bool,
}
struct Info {
    key: String,
    rel: String,
    name: String,
    owner: Option<String>,
    method: bool,
    pars: Vec<Par>,
    ret: String,
    /// the result is witness data
    high: bool,
    /// may be given witness data inside its arguments
    wit: bool,
    body: Block,
    file: String,
    line: usize,
    shape: serde_json::Value,
}

const STRUCTS: [&str; 6] = ["BigNatParams", "Num", "Bit", "Bitvector", "Polynomial", "BigNat"];
const OPAQUE: [&str; 5] = ["AllocatedNum", "AllocatedBit", "Boolean", "BpNum", "G"];
const GADGET: [&str; 7] = ["wires", "wire_values", "value", "access", "params", "alloc", "mux"];
const SKIP: [&str; 2] = ["Option as", "Scalar as"];

fn s<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn norm_ty(t: &str) -> String {
    let t = t.replace("& mut ", "").replace("&mut ", "").replace('&', "").replace(' ', "");
    t.replace("SynthesisError>", "E>")
}
fn mangle(k: &str) -> String {
    let k = k.replace("::", "__").replace(" as ", "_as_");
    format!("rel__{}", k.chars().filter(|c| c.is_alphanumeric() || *c == '_').collect::<String>())
}
fn opt_arg(t: &str) -> Option<&str> {
    t.strip_prefix("Option<").and_then(|t| t.strip_suffix('>'))
}
fn res_arg(t: &str) -> Option<&str> {
    t.strip_prefix("Result<").and_then(|t| t.strip_suffix(",E>"))
}
fn is_struct(t: &str) -> bool {
    STRUCTS.contains(&t) || OPAQUE.contains(&t)
}
fn mentions_struct(t: &str) -> bool {
    t.split(|c: char| !c.is_alphanumeric()).any(|w| is_struct(w) && w != "BigNatParams")
}

// ---- every binder gets its own name
struct Alpha {
    scopes: Vec<Map<String, String>>,
    used: Map<String, usize>,
}
impl Alpha {
    fn bind(&mut self, p: &mut Pat) {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if n.chars().next().unwrap().is_uppercase() {
                    return;
                }
                let c = self.used.entry(n.clone()).or_insert(0);
                let m = if *c == 0 { n.clone() } else { format!("{n}_{c}x") };
                *c += 1;
                self.scopes.last_mut().unwrap().insert(n, m.clone());
                i.ident = Ident::new(&m, i.ident.span());
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|p| self.bind(p)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|p| self.bind(p)),
            Pat::Reference(r) => self.bind(&mut r.pat),
            Pat::Type(t) => self.bind(&mut t.pat),
            Pat::Paren(t) => self.bind(&mut t.pat),
            _ => {}
        }
    }
}
impl VisitMut for Alpha {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.scopes.push(Map::new());
        for st in &mut b.stmts {
            match st {
                Stmt::Local(l) => {
                    if let Some(i) = &mut l.init {
                        self.visit_expr_mut(&mut i.expr);
                    }
                    self.bind(&mut l.pat);
                }
                Stmt::Expr(e, _) => self.visit_expr_mut(e),
                _ => {}
            }
        }
        self.scopes.pop();
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.scopes.push(Map::new());
        self.bind(&mut a.pat);
        self.visit_expr_mut(&mut a.body);
        self.scopes.pop();
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        self.scopes.push(Map::new());
        if let Expr::Let(l) = &mut *i.cond {
            self.visit_expr_mut(&mut l.expr);
            self.bind(&mut l.pat);
        } else {
            self.visit_expr_mut(&mut i.cond);
        }
        self.visit_block_mut(&mut i.then_branch);
        self.scopes.pop();
        if let Some((_, e)) = &mut i.else_branch {
            self.visit_expr_mut(e);
        }
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        c.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            let n = i.to_string();
            if n == "self" {
                *p = parse_quote!(me);
                return;
            }
            for sc in self.scopes.iter().rev() {
                if let Some(m) = sc.get(&n) {
                    let id = Ident::new(m, i.span());
                    *p = parse_quote!(#id);
                    return;
                }
            }
        }
    }
}

fn binders(p: &Pat, out: &mut Vec<(String, bool)>) {
    match p {
        Pat::Ident(i) if !i.ident.to_string().chars().next().unwrap().is_uppercase() => out.push((i.ident.to_string(), i.mutability.is_some())),
        Pat::Tuple(t) => t.elems.iter().for_each(|p| binders(p, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|p| binders(p, out)),
        Pat::Reference(r) => binders(&r.pat, out),
        Pat::Type(t) => binders(&t.pat, out),
        Pat::Paren(t) => binders(&t.pat, out),
        _ => {}
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
fn root(e: &Expr, high: &mut bool, wf: &HashSet<String>) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => root(&p.expr, high, wf),
        Expr::Reference(p) => root(&p.expr, high, wf),
        Expr::Unary(p) => root(&p.expr, high, wf),
        Expr::Index(p) => root(&p.expr, high, wf),
        Expr::MethodCall(m) => root(&m.receiver, high, wf),
        Expr::Field(f) => {
            if wf.contains(&s(&f.member)) {
                *high = true;
            }
            root(&f.base, high, wf)
        }
        _ => None,
    }
}
fn mentions(t: &str, x: &str) -> bool {
    t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == x)
}

struct World {
    infos: Vec<Info>,
    by_name: Map<String, Vec<usize>>,
    fields: Map<(String, String), String>,
    wf: HashSet<String>,
}

/// what is known of one function's locals
struct Fun<'a> {
    w: &'a World,
    this: usize,
    high: HashSet<String>,
    types: Map<String, String>,
    names: HashSet<String>,
    muts: Vec<String>,
    n: usize,
    grew: bool,
}

enum Tgt {
    Info(usize),
    Rel(String, bool),
}
enum Val {
    Pair(String, String),
    Never,
}

impl<'a> Fun<'a> {
    // ---- types, as far as needed to find the callee
    fn ty(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.types.get(&i.to_string()).cloned()),
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Reference(p) => self.ty(&p.expr),
            Expr::Unary(p) => self.ty(&p.expr),
            Expr::Index(p) => self.ty(&p.expr).and_then(|t| t.strip_prefix("Vec<").and_then(|t| t.strip_suffix('>')).map(|t| t.to_string())),
            Expr::Field(f) => self.ty(&f.base).and_then(|t| self.w.fields.get(&(t, s(&f.member))).cloned()),
            Expr::Try(t) => self.ty(&t.expr).and_then(|t| res_arg(&t).map(|x| x.to_string())),
            Expr::Struct(t) => Some(s(&t.path)),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.ty(e),
                _ => None,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.ty(e),
                _ => None,
            },
            Expr::Match(m) => m.arms.iter().find_map(|a| self.ty(&a.body)),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["cl", "as_ref", "as_mut", "take"].contains(&&*n) {
                    return self.ty(&m.receiver);
                }
                if n == "unwrap" {
                    return self.ty(&m.receiver).and_then(|t| res_arg(&t).or(opt_arg(&t)).map(|x| x.to_string()));
                }
                match self.target(e)? {
                    Tgt::Info(i) => Some(self.ret_ty(i, e)),
                    Tgt::Rel(..) => None,
                }
            }
            Expr::Call(c) => {
                let f = s(&c.func).replace(' ', "");
                if ["mv__", "vref__", "TAdd::tadd"].contains(&&*f) {
                    return self.ty(&c.args[0]);
                }
                if f == "Some" {
                    return self.ty(&c.args[0]).map(|t| format!("Option<{t}>"));
                }
                if f == "Ok" {
                    return self.ty(&c.args[0]).map(|t| format!("Result<{t},E>"));
                }
                if let Some(t) = f.strip_prefix('<').and_then(|t| t.strip_suffix("asTFrom<_>>::tfrom")) {
                    return Some(t.to_string());
                }
                let dep = Map::from([
                    ("AllocatedNum::alloc", "Result<AllocatedNum,E>"),
                    ("AllocatedBit::alloc", "Result<AllocatedBit,E>"),
                    ("Boolean::and", "Result<Boolean,E>"),
                    ("AllocatedNum::conditionally_reverse", "Result<(AllocatedNum,AllocatedNum),E>"),
                    ("BpNum::zero", "BpNum"),
                    ("G::mux", "Result<G,E>"),
                    ("G::alloc", "Result<G,E>"),
                ]);
                if let Some(t) = dep.get(&*f) {
                    return Some(t.to_string());
                }
                match self.target(e)? {
                    Tgt::Info(i) => Some(self.ret_ty(i, e)),
                    Tgt::Rel(..) => None,
                }
            }
            Expr::Tuple(t) => {
                let v: Option<Vec<String>> = t.elems.iter().map(|e| self.ty(e)).collect();
                v.map(|v| format!("({})", v.join(",")))
            }
            _ => None,
        }
    }
    fn ret_ty(&self, i: usize, e: &Expr) -> String {
        let i = &self.w.infos[i];
        let r = norm_ty(&i.ret);
        if !i.key.starts_with("Gadget::") {
            return r;
        }
        for (p, a) in i.pars.iter().zip(self.args(e)) {
            if norm_ty(&p.ty) == "G" {
                if let Some(t) = self.ty(a) {
                    return r.replace("(G,G)", &format!("({t},{t})")).replace("<G,", &format!("<{t},"));
                }
            }
        }
        r
    }
    fn bind_ty(&mut self, p: &Pat, t: Option<String>) {
        match (p, t) {
            (Pat::Type(pt), _) => {
                let t = norm_ty(&s(&pt.ty));
                self.bind_ty(&pt.pat, Some(t));
            }
            (Pat::Ident(i), Some(t)) => {
                self.types.insert(i.ident.to_string(), t);
            }
            (Pat::Tuple(pt), Some(t)) => {
                if let Some(x) = t.strip_prefix('(').and_then(|t| t.strip_suffix(')')) {
                    let parts: Vec<&str> = x.split(',').collect();
                    if parts.len() == pt.elems.len() {
                        for (p, t) in pt.elems.iter().zip(parts) {
                            self.bind_ty(p, Some(t.to_string()));
                        }
                    }
                }
            }
            (Pat::TupleStruct(ts), Some(t)) => {
                if let (Some(a), 1) = (res_arg(&t).or(opt_arg(&t)), ts.elems.len()) {
                    if s(&ts.path) != "Err" {
                        self.bind_ty(&ts.elems[0], Some(a.to_string()));
                    }
                }
            }
            _ => {}
        }
    }
    /// the doubled function a call stands for
    fn target(&self, e: &Expr) -> Option<Tgt> {
        match e {
            Expr::Call(c) => {
                let f = s(&c.func).replace(' ', "");
                if f.starts_with('<') && f.ends_with("asTFrom<_>>::tfrom") {
                    return Some(Tgt::Rel(f.replace("::tfrom", "::rel_tfrom").replace("as", " as "), false));
                }
                let f = match &*f {
                    "mux_tree__" => "Gadget::mux_tree",
                    "switch__" => "Gadget::switch",
                    f => f,
                };
                if let Some(m) = f.strip_prefix("G::") {
                    return Some(Tgt::Rel(format!("G::rel_{m}"), false));
                }
                if ["AllocatedNum::alloc", "AllocatedBit::alloc", "AllocatedNum::conditionally_reverse", "Boolean::and", "Boolean::or", "Boolean::enforce_equal"].contains(&f) {
                    return Some(Tgt::Rel(mangle(f), false));
                }
                self.w.infos.iter().position(|i| i.key == f && !i.method).map(Tgt::Info)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let c = self.w.by_name.get(&n).cloned().unwrap_or_default();
                let t = self.ty(&m.receiver);
                if t.as_deref() == Some("G") && GADGET.contains(&&*n) {
                    return Some(Tgt::Rel(format!("G::rel_{n}"), true));
                }
                if t.as_deref() == Some("AllocatedNum") && n == "add" {
                    return Some(Tgt::Rel("rel__AllocatedNum__add".into(), true));
                }
                let v: Vec<usize> = c.into_iter().filter(|i| {
                    let i = &self.w.infos[*i];
                    i.method && i.pars.len() == m.args.len() + 1 && match &t {
                        Some(t) => i.owner.as_ref() == Some(t),
                        None => !["push", "pop", "get", "insert", "append", "truncate"].contains(&&*n),
                    }
                }).collect();
                if v.len() == 1 { Some(Tgt::Info(v[0])) } else { None }
            }
            _ => None,
        }
    }
    fn args<'e>(&self, e: &'e Expr) -> Vec<&'e Expr> {
        match e {
            Expr::Call(c) => c.args.iter().collect(),
            Expr::MethodCall(m) => std::iter::once(&*m.receiver).chain(m.args.iter()).collect(),
            _ => vec![],
        }
    }
    fn has_alloc(&self, e: &Expr) -> bool {
        let t = s(e);
        [". alloc_w (", ". alloc_input_w (", ". alloc_s (", ". alloc_input_s ("].iter().any(|x| t.contains(x))
    }
    // ---- which data depends on the witness (only a guess: the solver checks)
    fn hi(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.high.contains(&i.to_string())),
            Expr::Field(f) => self.w.wf.contains(&s(&f.member)) || self.hi(&f.base),
            Expr::Paren(p) => self.hi(&p.expr),
            Expr::Reference(p) => self.hi(&p.expr),
            Expr::Unary(p) => self.hi(&p.expr),
            Expr::Cast(p) => self.hi(&p.expr),
            Expr::Try(p) => self.hi(&p.expr),
            Expr::Index(p) => self.hi(&p.expr) || self.hi(&p.index),
            Expr::Binary(b) => self.hi(&b.left) || self.hi(&b.right),
            Expr::Struct(_) => false,
            Expr::Tuple(t) => t.elems.iter().any(|e| self.hi(e)),
            Expr::If(_) | Expr::Match(_) if self.has_alloc(e) => false,
            Expr::If(i) => self.hi(cond(&i.cond)) || self.hib(&i.then_branch) || i.else_branch.as_ref().map_or(false, |x| self.hi(&x.1)),
            Expr::Match(m) => self.hi(&m.expr) || m.arms.iter().any(|a| self.hi(&a.body)),
            Expr::Block(b) => self.hib(&b.block),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["get_value", "wit", "grab", "get_bit"].contains(&&*n) {
                    return true;
                }
                match self.target(e) {
                    Some(Tgt::Info(i)) => self.w.infos[i].high || (!self.w.infos[i].wit && self.args(e).iter().any(|a| self.hi(a))),
                    Some(Tgt::Rel(f, ..)) => f == "G::rel_wire_values" || f == "G::rel_value",
                    None => self.args(e).iter().any(|a| self.hi(a)),
                }
            }
            Expr::Call(_) => match self.target(e) {
                Some(Tgt::Info(i)) => self.w.infos[i].high || (!self.w.infos[i].wit && self.args(e).iter().any(|a| self.hi(a))),
                Some(Tgt::Rel(..)) => false,
                None => self.args(e).iter().any(|a| self.hi(a)),
            },
            _ => false,
        }
    }
    fn hib(&self, b: &Block) -> bool {
        match b.stmts.last() {
            Some(Stmt::Expr(e, None)) => self.hi(e),
            _ => false,
        }
    }
    fn mark(&mut self, x: &str) {
        if self.high.insert(x.to_string()) {
            self.grew = true;
        }
    }
    fn bind_hi(&mut self, p: &Pat, e: &Expr) {
        match (p, strip(e)) {
            (Pat::Tuple(pt), Expr::Tuple(et)) if pt.elems.len() == et.elems.len() => {
                for (p, e) in pt.elems.iter().zip(&et.elems) {
                    self.bind_hi(p, e);
                }
            }
            (Pat::Type(t), _) => self.bind_hi(&t.pat, e),
            _ => {
                if self.hi(e) {
                    let mut v = vec![];
                    binders(p, &mut v);
                    v.iter().for_each(|(x, _)| self.mark(x));
                }
            }
        }
    }
    fn lhs(&mut self, e: &Expr, h: bool) {
        let mut hf = false;
        if let Some(x) = root(e, &mut hf, &self.w.wf) {
            if h && !hf && x != "cs" && x != "me" {
                self.mark(&x);
            }
        }
    }
    fn flow_block(&mut self, b: &Block, ctx: bool) {
        for st in &b.stmts {
            match st {
                Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        self.flow(&i.expr, ctx);
                        let t = self.ty(&i.expr);
                        self.bind_ty(&l.pat, t);
                        self.bind_hi(&l.pat, &i.expr);
                    } else {
                        self.bind_ty(&l.pat, None);
                    }
                }
                Stmt::Expr(e, _) => self.flow(e, ctx),
                _ => {}
            }
        }
    }
    fn flow(&mut self, e: &Expr, ctx: bool) {
        match e {
            Expr::Block(b) => self.flow_block(&b.block, ctx),
            Expr::If(i) => {
                let c = cond(&i.cond);
                self.flow(c, ctx);
                if let Expr::Let(l) = &*i.cond {
                    let t = self.ty(&l.expr);
                    self.bind_ty(&l.pat, t);
                    self.bind_hi(&l.pat, &l.expr);
                }
                let h = ctx || self.hi(c);
                self.flow_block(&i.then_branch, h);
                if let Some((_, x)) = &i.else_branch {
                    self.flow(x, h);
                }
            }
            Expr::Match(m) => {
                self.flow(&m.expr, ctx);
                let t = self.ty(&m.expr);
                let h = ctx || self.hi(&m.expr);
                for a in &m.arms {
                    self.bind_ty(&a.pat, t.clone());
                    self.bind_hi(&a.pat, &m.expr);
                    self.flow(&a.body, h);
                }
            }
            Expr::While(w) => {
                self.flow(&w.cond, ctx);
                let h = ctx || self.hi(&w.cond);
                self.flow_block(&w.body, h);
            }
            Expr::Assign(a) => {
                self.flow(&a.right, ctx);
                let h = ctx || self.hi(&a.right);
                self.lhs(&a.left, h);
            }
            Expr::Call(c) => {
                c.args.iter().for_each(|a| self.flow(a, ctx));
                let h = ctx || c.args.iter().any(|a| self.hi(a));
                if self.target(e).is_none() {
                    for a in &c.args {
                        if let Expr::Reference(r) = a {
                            if r.mutability.is_some() {
                                self.lhs(&r.expr, h);
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                self.flow(&m.receiver, ctx);
                m.args.iter().for_each(|a| self.flow(a, ctx));
                let n = m.method.to_string();
                if ["push", "insert", "append", "vsplice", "set_bit", "vdrain", "vtruncate", "vreverse", "pop", "take"].contains(&&*n) && self.target(e).is_none() {
                    let h = ctx || m.args.iter().any(|a| self.hi(a));
                    self.lhs(&m.receiver, h);
                }
            }
            Expr::Paren(p) => self.flow(&p.expr, ctx),
            Expr::Reference(p) => self.flow(&p.expr, ctx),
            Expr::Unary(p) => self.flow(&p.expr, ctx),
            Expr::Cast(p) => self.flow(&p.expr, ctx),
            Expr::Try(p) => self.flow(&p.expr, ctx),
            Expr::Field(p) => self.flow(&p.base, ctx),
            Expr::Index(p) => {
                self.flow(&p.expr, ctx);
                self.flow(&p.index, ctx);
            }
            Expr::Tuple(t) => t.elems.iter().for_each(|a| self.flow(a, ctx)),
            Expr::Struct(t) => t.fields.iter().for_each(|a| self.flow(&a.expr, ctx)),
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    self.flow(x, ctx);
                }
            }
            _ => {}
        }
    }
    // ---- does it have to be executed side by side?
    fn needs(&self, e: &Expr) -> bool {
        match e {
            Expr::If(i) => {
                let c = cond(&i.cond);
                !self.hi(c) && (self.needs(c) || self.needs_b(&i.then_branch) || i.else_branch.as_ref().map_or(false, |x| self.needs(&x.1)))
            }
            Expr::Match(m) => !self.hi(&m.expr) && (self.needs(&m.expr) || m.arms.iter().any(|a| self.needs(&a.body))),
            Expr::While(w) => !self.hi(&w.cond),
            Expr::Return(r) => !matches!(&r.expr, Some(x) if s(x).starts_with("Err (")),
            Expr::Block(b) => self.needs_b(&b.block),
            Expr::Call(c) => (self.target(e).is_some() && !self.hi(e)) || c.args.iter().any(|a| self.needs(a)),
            Expr::MethodCall(m) => (self.target(e).is_some() && !self.hi(e)) || self.needs(&m.receiver) || m.args.iter().any(|a| self.needs(a)),
            Expr::Assign(a) => self.needs(&a.left) || self.needs(&a.right),
            Expr::Binary(b) => self.needs(&b.left) || self.needs(&b.right),
            Expr::Paren(p) => self.needs(&p.expr),
            Expr::Reference(p) => self.needs(&p.expr),
            Expr::Unary(p) => self.needs(&p.expr),
            Expr::Cast(p) => self.needs(&p.expr),
            Expr::Try(p) => self.needs(&p.expr),
            Expr::Field(p) => self.needs(&p.base),
            Expr::Index(p) => self.needs(&p.expr) || self.needs(&p.index),
            Expr::Tuple(t) => t.elems.iter().any(|a| self.needs(a)),
            Expr::Struct(t) => t.fields.iter().any(|a| self.needs(&a.expr)),
            _ => false,
        }
    }
    fn needs_b(&self, b: &Block) -> bool {
        b.stmts.iter().any(|st| match st {
            Stmt::Local(l) => l.init.as_ref().map_or(false, |i| self.needs(&i.expr)),
            Stmt::Expr(e, _) => self.needs(e),
            _ => false,
        })
    }
    // ---- one side
    fn copy(&self, side: &'static str, e: &Expr) -> String {
        let mut e = e.clone();
        Side { f: self, side }.visit_expr_mut(&mut e);
        s(&e)
    }
    fn copy_pat(&self, side: &'static str, p: &Pat) -> String {
        let mut p = p.clone();
        Side { f: self, side }.visit_pat_mut(&mut p);
        s(&p)
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("t{}__", self.n)
    }
    // ---- both sides
    fn dd(&mut self, e: &Expr, out: &mut String) -> Res<Val> {
        if !self.needs(e) {
            return Ok(Val::Pair(self.copy("L", e), self.copy("R", e)));
        }
        let pair = |v: Val| match v {
            Val::Pair(l, r) => Ok((l, r)),
            Val::Never => Err("a diverging subexpression".to_string()),
        };
        Ok(match e {
            Expr::Paren(p) => {
                let (l, r) = pair(self.dd(&p.expr, out)?)?;
                Val::Pair(format!("({l})"), format!("({r})"))
            }
            Expr::Reference(p) => {
                let m = if p.mutability.is_some() { "mut " } else { "" };
                let (l, r) = pair(self.dd(&p.expr, out)?)?;
                Val::Pair(format!("&{m}({l})"), format!("&{m}({r})"))
            }
            Expr::Unary(p) => {
                let o = s(&p.op);
                let (l, r) = pair(self.dd(&p.expr, out)?)?;
                Val::Pair(format!("({o}({l}))"), format!("({o}({r}))"))
            }
            Expr::Cast(p) => {
                let o = s(&p.ty);
                let (l, r) = pair(self.dd(&p.expr, out)?)?;
                Val::Pair(format!("(({l}) as {o})"), format!("(({r}) as {o})"))
            }
            Expr::Field(p) => {
                let o = s(&p.member);
                let (l, r) = pair(self.dd(&p.base, out)?)?;
                Val::Pair(format!("({l}).{o}"), format!("({r}).{o}"))
            }
            Expr::Index(p) => {
                let (l, r) = pair(self.dd(&p.expr, out)?)?;
                let (i, j) = pair(self.dd(&p.index, out)?)?;
                let t = self.fresh();
                out.push_str(&format!("let {t}_L = {i}; let {t}_R = {j};\n"));
                Val::Pair(format!("({l})[({l}).ix__({t}_L)]"), format!("({r})[({r}).ix__({t}_R)]"))
            }
            Expr::Tuple(t) => {
                let mut l = vec![];
                let mut r = vec![];
                for e in &t.elems {
                    let (a, b) = pair(self.dd(e, out)?)?;
                    l.push(a);
                    r.push(b);
                }
                Val::Pair(format!("({})", l.join(", ")), format!("({})", r.join(", ")))
            }
            Expr::Struct(t) => {
                let p = s(&t.path);
                let mut l = vec![];
                let mut r = vec![];
                let k = t.fields.iter().rposition(|f| self.needs(&f.expr)).unwrap_or(0);
                for (i, f) in t.fields.iter().enumerate() {
                    let m = s(&f.member);
                    let (mut a, mut b) = pair(self.dd(&f.expr, out)?)?;
                    if i < k && !matches!(f.expr, Expr::Lit(_)) {
                        let t = self.fresh();
                        out.push_str(&format!("let {t}_L = {a};\nlet {t}_R = {b};\n"));
                        (a, b) = (format!("{t}_L"), format!("{t}_R"));
                    }
                    l.push(format!("{m}: {a}"));
                    r.push(format!("{m}: {b}"));
                }
                Val::Pair(format!("{p} {{ {} }}", l.join(", ")), format!("{p} {{ {} }}", r.join(", ")))
            }
            Expr::Try(p) => {
                let (l, r) = pair(self.dd(&p.expr, out)?)?;
                let t = self.fresh();
                out.push_str(&format!("let {t}_L = {};\nlet {t}_R = {};\n", tri(&l), tri(&r)));
                Val::Pair(format!("{t}_L"), format!("{t}_R"))
            }
            Expr::Return(p) => {
                let v = match &p.expr {
                    Some(x) => self.dd(x, out)?,
                    None => Val::Pair("()".into(), "()".into()),
                };
                let (l, r) = pair(v)?;
                out.push_str(&format!("return ({l}, {r});\n"));
                Val::Never
            }
            Expr::Assign(a) => {
                let (l, r) = pair(self.dd(&a.right, out)?)?;
                if self.needs(&a.left) {
                    return Err("assignment to a computed place".into());
                }
                if let Expr::Index(x) = &*a.left {
                    let k = self.fresh();
                    out.push_str(&format!("let {k}_L = {l};\nlet {k}_R = {r};\n"));
                    for side in ["L", "R"] {
                        let (b, i) = (self.copy(side, &x.expr), self.copy(side, &x.index));
                        out.push_str(&format!("{{ let k__ = ({b}).ix__({i}); {b}[k__] = {k}_{side}; }}\n"));
                    }
                    return Ok(Val::Pair("()".into(), "()".into()));
                }
                out.push_str(&format!("{} = {l};\n{} = {r};\n", self.copy("L", &a.left), self.copy("R", &a.left)));
                Val::Pair("()".into(), "()".into())
            }
            Expr::Block(b) => {
                let mut o = String::new();
                match self.block(&b.block, &mut o)? {
                    Val::Pair(l, r) => {
                        let t = self.fresh();
                        out.push_str(&format!("let ({t}_L, {t}_R) = {{\n{o}({l}, {r}) }};\n"));
                        Val::Pair(format!("{t}_L"), format!("{t}_R"))
                    }
                    Val::Never => {
                        out.push_str(&o);
                        Val::Never
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    let el: Expr = match &i.else_branch {
                        Some((_, x)) => (**x).clone(),
                        None => parse_quote!({}),
                    };
                    let (p, x, b) = (&l.pat, &l.expr, &i.then_branch);
                    let m: Expr = parse_quote!(match #x { #p => #b, _ => #el });
                    return self.dd(&m, out);
                }
                let (l, r) = pair(self.dd(&i.cond, out)?)?;
                let c = self.fresh();
                out.push_str(&format!("let {c}_L = {l}; let {c}_R = {r};\nmust__({c}_L == {c}_R);\n"));
                let mut a = String::new();
                let va = self.block(&i.then_branch, &mut a)?;
                let mut b = String::new();
                let vb = match &i.else_branch {
                    Some((_, x)) => self.dd(x, &mut b)?,
                    None => Val::Pair("()".into(), "()".into()),
                };
                self.join(vec![(format!("if {c}_L {{\n"), va, a, "}".into()), (" else {\n".to_string(), vb, b, "}".into())], out)
            }
            Expr::Match(m) => {
                let (l, r) = pair(self.dd(&m.expr, out)?)?;
                let c = self.fresh();
                out.push_str(&format!("let {c}_L = {l}; let {c}_R = {r};\n"));
                let mut parts = vec![];
                let mut pre = format!("match {c}_L {{\n");
                for (k, a) in m.arms.iter().enumerate() {
                    if a.guard.is_some() {
                        return Err("a guard".into());
                    }
                    let mut o = String::new();
                    let v = self.dd(&a.body, &mut o)?;
                    let wild = matches!(a.pat, Pat::Wild(_));
                    let mut head = format!("{pre}{} => match {c}_R {{\n", self.copy_pat("L", &a.pat));
                    if wild {
                        for b in &m.arms[..k] {
                            head.push_str(&format!("{} => diff__(),\n", self.copy_pat("R", &b.pat)));
                        }
                    }
                    head.push_str(&format!("{} => {{\n", self.copy_pat("R", &a.pat)));
                    let last = k + 1 == m.arms.len();
                    parts.push((head, v, o, format!("}}\n{}}}{}", if wild { "" } else { "_ => diff__(),\n" }, if last { "\n}" } else { ",\n" })));
                    pre = String::new();
                }
                self.join(parts, out)
            }
            Expr::While(w) => {
                if self.needs(&w.cond) {
                    return Err("a loop condition with a call".into());
                }
                let t = s(w);
                let mut inv: Vec<String> = vec![];
                if self.w.infos[self.this].pars.iter().any(|p| p.cs) {
                    inv.push("both(*cs_L, *cs_R)".into());
                }
                if self.w.infos[self.this].pars.iter().any(|p| p.name == "me" && p.ty.starts_with("&mut")) {
                    inv.push("same(*me_L, *me_R)".into());
                }
                for x in &self.muts {
                    if !self.high.contains(x) && mentions(&t, x) {
                        inv.push(format!("same({x}_L, {x}_R)"));
                    }
                }
                let (l, r) = (self.copy("L", &w.cond), self.copy("R", &w.cond));
                let mut o = String::new();
                let k = self.muts.len();
                let v = self.block(&w.body, &mut o)?;
                self.muts.truncate(k);
                if matches!(v, Val::Never) {
                    return Err("a loop that does not loop".into());
                }
                let inv = if inv.is_empty() { String::new() } else { format!("\n    invariant {}\n", inv.join(", ")) };
                out.push_str(&format!("while {l} {inv} {{\nmust__({r});\n{o}}}\nmust__(!({r}));\n"));
                Val::Pair("()".into(), "()".into())
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                let args: Vec<Expr> = self.args(e).into_iter().cloned().collect();
                let mut ls = vec![];
                let tgt = if self.hi(e) { None } else { self.target(e) };
                for a in &args {
                    ls.push(pair(self.dd(a, out)?)?);
                }
                match tgt {
                    None => {
                        let go = |v: Vec<&String>, side: &'static str| match e {
                            Expr::Call(c) => format!("{}({})", self.copy(side, &c.func), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")),
                            Expr::MethodCall(m) => {
                                let n = m.method.to_string();
                                let n = if n == "unwrap" { "unw__".into() } else if n == "insert" { "vinsert".into() } else { n };
                                format!("({}).{n}({})", v[0], v[1..].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
                            }
                            _ => unreachable!(),
                        };
                        Val::Pair(go(ls.iter().map(|x| &x.0).collect(), "L"), go(ls.iter().map(|x| &x.1).collect(), "R"))
                    }
                    Some(t) => {
                        let mut v = vec![];
                        for (k, (l, r)) in ls.iter().enumerate() {
                            let mut rf = "";
                            if k == 0 {
                                match &t {
                                    Tgt::Info(i) if self.w.infos[*i].method => {
                                        let ty = &self.w.infos[*i].pars[0].ty;
                                        rf = if ty.starts_with("&mut") { "&mut " } else if ty.starts_with('&') { ".rf()" } else { "" };
                                    }
                                    Tgt::Rel(_, true) => rf = ".rf()",
                                    _ => {}
                                }
                            }
                            for x in [l, r] {
                                v.push(match rf {
                                    ".rf()" => format!("({x}).rf()"),
                                    "" => x.clone(),
                                    p => format!("{p}({x})"),
                                });
                            }
                        }
                        let f = match &t {
                            Tgt::Info(i) => self.w.infos[*i].rel.clone(),
                            Tgt::Rel(f, ..) => f.clone(),
                        };
                        let n = self.fresh();
                        out.push_str(&format!("let ({n}_L, {n}_R) = {f}({});\n", v.join(", ")));
                        Val::Pair(format!("{n}_L"), format!("{n}_R"))
                    }
                }
            }
            _ => return Err(format!("{}", s(e).chars().take(60).collect::<String>())),
        })
    }
    fn join(&mut self, parts: Vec<(String, Val, String, String)>, out: &mut String) -> Val {
        let all = parts.iter().all(|p| matches!(p.1, Val::Never));
        let t = self.fresh();
        let mut o = String::new();
        for (head, v, body, tail) in parts {
            o.push_str(&head);
            o.push_str(&body);
            if let Val::Pair(l, r) = v {
                o.push_str(&format!("({l}, {r})\n"));
            }
            o.push_str(&tail);
        }
        if all {
            out.push_str(&o);
            Val::Never
        } else {
            out.push_str(&format!("let ({t}_L, {t}_R) = {o};\n"));
            Val::Pair(format!("{t}_L"), format!("{t}_R"))
        }
    }
    fn block(&mut self, b: &Block, out: &mut String) -> Res<Val> {
        let mut tail = Val::Pair("()".into(), "()".into());
        let k = self.muts.len();
        for (i, st) in b.stmts.iter().enumerate() {
            let last = i + 1 == b.stmts.len();
            match st {
                Stmt::Local(l) => {
                    let (pl, pr) = (self.copy_pat("L", &l.pat), self.copy_pat("R", &l.pat));
                    if let Some(init) = &l.init {
                        match self.dd(&init.expr, out)? {
                            Val::Pair(a, b) => out.push_str(&format!("let {pl} = {a};\nlet {pr} = {b};\n")),
                            Val::Never => return Err("a diverging let".into()),
                        }
                        let mut v = vec![];
                        binders(&l.pat, &mut v);
                        for (x, m) in v {
                            if m {
                                self.muts.push(x);
                            }
                        }
                    } else {
                        out.push_str(&format!("let mut {pl};\nlet mut {pr};\n").replace("mut mut", "mut"));
                    }
                }
                Stmt::Expr(e, semi) => {
                    let v = self.dd(e, out)?;
                    match v {
                        Val::Never => {
                            tail = Val::Never;
                            break;
                        }
                        Val::Pair(l, r) => {
                            if last && semi.is_none() && !matches!(e, Expr::While(_)) {
                                tail = Val::Pair(l, r);
                            } else if !(l.starts_with('t') && l.ends_with("___L")) && l != "()" {
                                out.push_str(&format!("{l};\n{r};\n"));
                            }
                        }
                    }
                }
                _ => return Err("a macro or item".into()),
            }
        }
        self.muts.truncate(k);
        Ok(tail)
    }
}
fn tri(x: &str) -> String {
    format!("match {x} {{ Ok(v__) => v__, Err(e__) => return (Err(e__), Err(SynthesisError::Unsatisfiable)) }}")
}
fn cond(e: &Expr) -> &Expr {
    match e {
        Expr::Let(l) => &l.expr,
        _ => e,
    }
}

struct Side<'a, 'b> {
    f: &'a Fun<'b>,
    side: &'static str,
}
impl<'a, 'b> VisitMut for Side<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Index(x) = &mut *r.expr {
                    self.visit_expr_mut(&mut x.expr);
                    self.visit_expr_mut(&mut x.index);
                    let (b, i) = (&x.expr, &x.index);
                    *e = parse_quote!({ let k__ = (#b).ix__(#i); &mut #b[k__] });
                    return;
                }
            }
            Expr::Assign(a) => {
                if let Expr::Index(x) = &mut *a.left {
                    self.visit_expr_mut(&mut x.expr);
                    self.visit_expr_mut(&mut x.index);
                    self.visit_expr_mut(&mut a.right);
                    let (b, i, v) = (&x.expr, &x.index, &a.right);
                    *e = parse_quote!({ let v__ = #v; let k__ = (#b).ix__(#i); #b[k__] = v__; });
                    return;
                }
            }
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if self.f.names.contains(&i.to_string()) {
                        let id = Ident::new(&format!("{i}_{}", self.side), i.span());
                        *e = parse_quote!(#id);
                    }
                }
            }
            Expr::Index(x) => {
                let (b, i) = (&x.expr, &x.index);
                *e = parse_quote!(#b[(#b).ix__(#i)]);
            }
            Expr::MethodCall(m) if m.method == "unwrap" || m.method == "insert" => {
                let n = if m.method == "unwrap" { "unw__" } else { "vinsert" };
                m.method = Ident::new(n, m.method.span());
            }
            Expr::Try(t) => {
                let t: Expr = parse_str(&tri(&s(&t.expr))).unwrap();
                *e = parse_quote!((#t));
            }
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    if s(x).starts_with("Err (") {
                        *e = parse_quote!(return (#x, Err(SynthesisError::Unsatisfiable)));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        c.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let n = p.ident.to_string();
        if self.f.names.contains(&n) {
            p.ident = Ident::new(&format!("{n}_{}", self.side), p.ident.span());
        }
    }
}

struct Names(HashSet<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let n = p.ident.to_string();
        if !n.chars().next().unwrap().is_uppercase() {
            self.0.insert(n);
        }
    }
}

/// what two runs have in common when a value of this type is returned
fn ret_same(ret: &str, high: bool, cs: bool, mutself: bool) -> Vec<String> {
    let t = norm_ty(ret);
    let both = "both(*final(cs_L), *final(cs_R))";
    let mut v = vec![];
    if let Some(a) = res_arg(&t) {
        if cs {
            v.push(format!("r.0 is Ok && r.1 is Ok ==> {both}"));
        }
        if a != "()" && !high {
            v.push("r.0 is Ok && r.1 is Ok ==> same(r.0->Ok_0, r.1->Ok_0)".into());
        }
    } else {
        if cs {
            v.push(both.into());
        }
        if t != "()" && !high {
            v.push("same(r.0, r.1)".into());
        }
    }
    if mutself {
        v.push("same(*final(me_L), *final(me_R))".into());
    }
    v
}

pub fn main(repo: &str, spec: &str, outp: &str, outj: &str) {
    let mut problems = vec![];
    let src = prepare(repo, spec, &mut problems).src;
    let calls: serde_json::Value = serde_json::from_str(&fs::read_to_string(format!("{spec}/calls.json")).unwrap()).unwrap();
    let lazy: HashMap<String, String> = HashMap::new();
    let mut w = World { infos: vec![], by_name: Map::new(), fields: Map::new(), wf: HashSet::new() };
    let mut o = String::new();
    for n in STRUCTS {
        let Some((st, bp)) = src.structs.get(n) else {
            problems.push(format!("no struct {n}"));
            continue;
        };
        let mut f = vec![];
        let mut sh = vec![];
        for x in &st.fields {
            let name = x.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
            match ty_str(&x.ty, &None, *bp, &lazy) {
                Ok(t) => {
                    if t.replace(' ', "").starts_with("Option<") {
                        w.wf.insert(name.clone());
                    } else {
                        sh.push(format!("self.{name}.sh(&o.{name})"));
                    }
                    w.fields.insert((n.to_string(), name.clone()), norm_ty(&t));
                    f.push(format!("pub {name}: {t}"));
                }
                Err(e) => problems.push(format!("{n}.{name}: {e}")),
            }
        }
        o.push_str(&format!("pub struct {n} {{ {} }}\nimpl Sh for {n} {{ open spec fn sh(&self, o: &Self) -> bool {{ {} }} }}\nimpl Cl for {n} {{ #[verifier::external_body] fn cl(&self) -> Self {{ unimplemented!() }} }}\nimpl {n} {{ pub fn rf(&self) -> (r: &Self) ensures r == self {{ self }} }}\n", f.join(", "), sh.join(" && ")));
    }
    let mut single: Map<String, String> = Map::new();
    let mut status: Vec<serde_json::Value> = vec![];
    for k in calls.as_object().unwrap().keys() {
        if k.starts_with("LazyCell") || k == "compute_median_timestamp" || SKIP.iter().any(|x| k.starts_with(x)) {
            continue;
        }
        let Some(f) = src.fns.get(k) else {
            problems.push(format!("no function {k}"));
            continue;
        };
        let side = Sidecar { key: k.clone(), ..Default::default() };
        let mut lo = Lower::new(&side);
        lo.bp_num = f.bp_num;
        lo.self_ty = f.self_ty.clone();
        lo.assoc = f.assoc.clone();
        let r = (|| -> Res<Info> {
            let (p, r, b) = lo.function(&f.sig, &f.body).map_err(|e| format!("{e}"))?;
            let t: String = b.lines().filter(|l| !l.trim_start().starts_with("invariant ") && !l.trim_start().starts_with("decreases ")).map(|l| format!("{l}\n")).collect();
            let owner = f.self_ty.clone().unwrap_or_default();
            let p = p.replace("&mut self", "me: &mut S__").replace("&self", "me: &S__");
            let p = if p == "self" || p.starts_with("self,") { p.replacen("self", "me: S__", 1) } else { p };
            let p = p.replace("S__", &owner);
            let text = format!("fn {}({p}) -> {} {t}", f.sig.ident, if r.is_empty() { "()" } else { &r });
            let it: ItemFn = parse_str(&text).map_err(|e| format!("lowered text: {e}"))?;
            let gadget = k.starts_with("Gadget::");
            let mut pars = vec![];
            let mut al = Alpha { scopes: vec![Map::new()], used: Map::new() };
            let mut pre = String::new();
            for a in &it.sig.inputs {
                if let FnArg::Typed(x) = a {
                    let mut pat = (*x.pat).clone();
                    if let Pat::Ident(i) = &mut pat {
                        if i.mutability.is_some() {
                            pre.push_str(&format!("let mut {0} = {0};", i.ident));
                        }
                        i.mutability = None;
                    }
                    al.bind(&mut pat);
                    let ty = s(&x.ty).replace("& mut ", "&mut ").replace("& ", "&").replace(" < ", "<").replace(" >", ">");
                    let n = norm_ty(&ty);
                    let name = s(&pat);
                    let mut kind = if n.starts_with("Option<") && ty.replace(' ', "") != "Option<BigInt>" || n == "str" { Kind::High } else { Kind::Low };
                    match (&**k, &*name) {
                        ("verify_difficulty_update", x) if x != "cs" => kind = Kind::High,
                        ("verify_median_timestamp", "median") => kind = Kind::High,
                        ("verify_median_timestamp", "timestamp_array") => kind = Kind::Len,
                        _ => {}
                    }
                    pars.push(Par { name, cs: n == "Cs", ty, kind });
                }
            }
            let wit = pars.iter().any(|p| p.kind == Kind::High && norm_ty(&p.ty) != "str" || mentions_struct(&norm_ty(&p.ty)));
            let ret = if r.is_empty() { "()".to_string() } else { r.clone() };
            let nr = norm_ty(&ret);
            let high = wit && opt_arg(&nr).map_or(false, |a| !is_struct(a));
            let mut body = *it.block;
            if !pre.is_empty() {
                let b: Block = parse_str(&format!("{{ {pre} }}")).unwrap();
                let mut v = b.stmts;
                v.extend(body.stmts);
                body.stmts = v;
            }
            al.visit_block_mut(&mut body);
            let method = pars.first().map_or(false, |p| p.name == "me");
            if !gadget && !k.contains(" as ") {
                let sp = pars.iter().map(|p| if p.name == "me" { if p.ty.starts_with("&mut") { "&mut self" } else if p.ty.starts_with('&') { "&self" } else { "self" }.to_string() } else { format!("{}: {}", p.name, p.ty) }).collect::<Vec<_>>().join(", ");
                let item = format!("#[verifier::external_body]\npub fn {}({sp}) -> {ret} {{ unimplemented!() }}\n", f.sig.ident);
                single.entry(owner.clone()).or_default().push_str(&item);
            }
            Ok(Info { key: k.clone(), rel: mangle(k), name: f.sig.ident.to_string(), owner: f.self_ty.clone(), method, pars, ret, high, wit, body, file: f.file.clone(), line: f.line, shape: json!(lo.shape) })
        })();
        match r {
            Ok(i) => w.infos.push(i),
            Err(e) => {
                status.push(json!({"key": k, "error": e, "file": f.file, "line": f.line, "start": 0, "end": 0, "shape": []}));
            }
        }
    }
    for (i, x) in w.infos.iter().enumerate() {
        w.by_name.entry(x.name.clone()).or_default().push(i);
    }
    for (t, b) in &single {
        if t.is_empty() {
            o.push_str(b);
        } else {
            o.push_str(&format!("impl {t} {{\n{b}}}\n"));
        }
    }
    for (k, i) in w.infos.iter().enumerate() {
        if i.high {
            continue;
        }
        let mut f = Fun { w: &w, this: k, high: HashSet::new(), types: Map::new(), names: HashSet::new(), muts: vec![], n: 0, grew: true };
        for p in &i.pars {
            f.types.insert(p.name.clone(), norm_ty(&p.ty));
            f.names.insert(p.name.clone());
            if p.kind == Kind::High {
                f.high.insert(p.name.clone());
            }
        }
        let mut nm = Names(HashSet::new());
        nm.visit_block(&i.body);
        f.names.extend(nm.0);
        while f.grew {
            f.grew = false;
            f.flow_block(&i.body, false);
        }
        let mut body = String::new();
        let r = f.block(&i.body, &mut body);
        match r {
            Err(e) => {
                status.push(json!({"key": i.key, "error": e, "file": i.file, "line": i.line, "start": 0, "end": 0, "shape": i.shape}));
            }
            Ok(v) => {
                if let Val::Pair(l, r) = v {
                    body.push_str(&format!("({l}, {r})\n"));
                }
                let generic = i.key.starts_with("Gadget::");
                let borrow = i.ret.contains('&');
                let lt = |t: &str| if borrow { t.replace('&', "&'a ") } else { t.to_string() };
                let mut g = vec![];
                if borrow {
                    g.push("'a");
                }
                if generic {
                    g.push("G: Gadget");
                }
                let g = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
                let ps = i.pars.iter().map(|p| format!("{0}_L: {1}, {0}_R: {1}", p.name, lt(&p.ty))).collect::<Vec<_>>().join(", ");
                let mut req = vec![];
                for p in &i.pars {
                    let d = if p.ty.starts_with("&mut") { |x: String| format!("*old({x})") } else if p.ty.starts_with('&') { |x: String| format!("*{x}") } else { |x: String| x };
                    let (l, r) = (d(format!("{}_L", p.name)), d(format!("{}_R", p.name)));
                    if p.cs {
                        req.push(format!("both({l}, {r})"));
                    } else if p.kind == Kind::Low {
                        req.push(if p.ty.starts_with("&[") { format!("same_s(({l})@, ({r})@)") } else { format!("same({l}, {r})") });
                    } else if p.kind == Kind::Len {
                        req.push(format!("({l})@.len() == ({r})@.len()"));
                    }
                }
                let ens = ret_same(&i.ret, i.high, i.pars.iter().any(|p| p.cs), i.method && i.pars[0].ty.starts_with("&mut"));
                let rt = lt(&i.ret);
                let start = o.lines().count() + 2;
                o.push_str(&format!("// {}\n#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\npub fn {}{g}({ps}) -> (r: ({rt}, {rt}))\n", i.key, i.rel));
                if !req.is_empty() {
                    o.push_str(&format!("    requires {},\n", req.join(", ")));
                }
                if !ens.is_empty() {
                    o.push_str(&format!("    ensures {},\n", ens.join(", ")));
                }
                o.push_str(&format!("{{\n{body}}}\n"));
                status.push(json!({"key": i.key, "name": i.rel, "error": null, "file": i.file, "line": i.line, "start": start, "end": o.lines().count(), "shape": i.shape}));
            }
        }
    }
    let pre = fs::read_to_string(format!("{spec}/rel/prelude.rs")).unwrap_or_default();
    let pre = pre.trim_end().trim_end_matches("} // verus!").to_string();
    let gad = fs::read_to_string(format!("{spec}/rel/gadget.rs")).unwrap_or_default();
    let head = format!("{pre}\n{gad}\n");
    let n = head.lines().count();
    for f in &mut status {
        for x in ["start", "end"] {
            f[x] = json!(f[x].as_u64().unwrap_or(0) as usize + n);
        }
    }
    fs::write(outp, format!("{pre}\n{gad}\n{o}\n}} // verus!\n")).unwrap();
    fs::write(outj, json!({"problems": problems, "functions": status}).to_string()).unwrap();
}
