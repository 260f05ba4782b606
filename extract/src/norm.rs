//! Two behaviour-preserving rewritings of the source before it is lowered, so that the contracts
//! still apply when the code was only rearranged:
//! - a call of a function that the tree the contracts were written for does not have is replaced by
//!   that function's body (no recursion, no `return`, parameters bound or substituted);
//! - local names are brought back to those of that tree where they were only renamed.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub body: Block,
}

fn id(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

/// names bound in a function, in the order of the source
pub fn binders(sig: &Signature, body: &Block) -> Vec<String> {
    struct B(Vec<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let n = p.ident.to_string();
            if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0.push(n);
            }
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_local(&mut self, l: &'a Local) {
            // the pattern first, as it is written
            syn::visit::visit_local(self, l);
        }
    }
    let mut b = B(vec![]);
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            b.visit_pat(&t.pat);
        }
    }
    b.visit_block(body);
    b.0
}

fn token_idents(t: TokenStream, out: &mut HashSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => token_idents(g.stream(), out),
            _ => {}
        }
    }
}
fn idents(t: &impl ToTokens) -> HashSet<String> {
    let mut o = HashSet::new();
    token_idents(t.to_token_stream(), &mut o);
    o
}

fn ren_tokens(t: TokenStream, m: &HashMap<String, Expr>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut dot = false;
    for x in t {
        let d = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
        match x {
            TokenTree::Ident(i) if !dot && m.contains_key(&i.to_string()) => out.extend(m[&i.to_string()].to_token_stream()),
            TokenTree::Group(g) => {
                let mut h = Group::new(g.delimiter(), ren_tokens(g.stream(), m));
                h.set_span(g.span());
                out.extend([TokenTree::Group(h)]);
            }
            x => out.extend([x]),
        }
        dot = d;
    }
    out
}

/// replaces uses (and, where the replacement is a name, bindings) of names
struct Sub<'a> {
    m: &'a HashMap<String, Expr>,
    pats: bool,
    deref: &'a HashSet<String>,
}
fn name_of_expr(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}
impl<'a> VisitMut for Sub<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Some(n) = name_of_expr(&u.expr) {
                    if self.deref.contains(&n) {
                        if let Some(x) = self.m.get(&n) {
                            *e = x.clone();
                            return;
                        }
                    }
                }
            }
        }
        if let Some(n) = name_of_expr(e) {
            if let Some(x) = self.m.get(&n) {
                // a reference goes with the value, except where it is implied
                *e = if self.deref.contains(&n) { parse_quote!(&#x) } else { x.clone() };
                return;
            }
        }
        let base = match e {
            Expr::MethodCall(m) => Some(&mut m.receiver),
            Expr::Field(f) => Some(&mut f.base),
            Expr::Index(i) => Some(&mut i.expr),
            _ => None,
        };
        if let Some(b) = base {
            if let Some(x) = name_of_expr(b).and_then(|n| self.m.get(&n)) {
                **b = x.clone();
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if self.pats {
            if let Some(n) = self.m.get(&p.ident.to_string()).and_then(name_of_expr) {
                p.ident = id(&n);
            }
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = ren_tokens(m.tokens.clone(), self.m);
    }
}
fn rename(b: &mut Block, m: &HashMap<String, String>) {
    let m: HashMap<String, Expr> = m
        .iter()
        .map(|(a, b)| {
            let i = id(b);
            (a.clone(), parse_quote!(#i))
        })
        .collect();
    Sub { m: &m, pats: true, deref: &HashSet::new() }.visit_block_mut(b);
}

/// brings local names back to those of the base
pub fn alpha(sig: &mut Signature, body: &mut Block, base: &[String]) {
    let cur = binders(sig, body);
    if cur == base {
        return;
    }
    let (bs, cs): (HashSet<&String>, HashSet<&String>) = (base.iter().collect(), cur.iter().collect());
    // longest common subsequence
    let (n, m) = (base.len(), cur.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if base[i] == cur[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let mut map: HashMap<String, String> = HashMap::new();
    let mut bad: HashSet<String> = HashSet::new();
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj): (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    let mut flush = |gi: &mut Vec<&String>, gj: &mut Vec<&String>| {
        let a: Vec<_> = gi.drain(..).filter(|x| !cs.contains(*x)).collect();
        let b: Vec<_> = gj.drain(..).filter(|x| !bs.contains(*x)).collect();
        if a.len() == b.len() {
            for (x, y) in a.iter().zip(b.iter()) {
                if map.get(*y).map_or(false, |o| o != *x) || map.iter().any(|(k, v)| v == *x && k != *y) {
                    bad.insert(y.to_string());
                }
                map.insert(y.to_string(), x.to_string());
            }
        }
    };
    while i < n || j < m {
        if i < n && j < m && base[i] == cur[j] {
            flush(&mut gi, &mut gj);
            i += 1;
            j += 1;
        } else if j >= m || (i < n && l[i + 1][j] >= l[i][j + 1]) {
            gi.push(&base[i]);
            i += 1;
        } else {
            gj.push(&cur[j]);
            j += 1;
        }
    }
    flush(&mut gi, &mut gj);
    let all = idents(body);
    map.retain(|y, x| !bad.contains(y) && !all.contains(x));
    if map.is_empty() {
        return;
    }
    rename(body, &map);
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &mut *t.pat {
                if let Some(x) = map.get(&p.ident.to_string()) {
                    p.ident = id(x);
                }
            }
        }
    }
}

pub struct Inline<'a> {
    /// by the name a call uses: `f` or `T::f`; methods under `.f`
    pub helpers: &'a HashMap<String, Helper>,
    pub self_ty: Option<String>,
    depth: usize,
    n: usize,
    /// the place gives the caller's own result
    is_tail: bool,
    /// names bound so far on the way to the place
    bound: HashSet<String>,
    pub done: Vec<String>,
}

/// `?` as `unwrap`, outside closures
struct Unwrap;
impl VisitMut for Unwrap {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!(#x.unwrap());
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

enum Spliced {
    /// statements and the value
    Ok(Vec<Stmt>, Option<Expr>),
    No,
}

impl<'a> Inline<'a> {
    pub fn new(helpers: &'a HashMap<String, Helper>, self_ty: Option<String>) -> Self {
        Inline { helpers, self_ty, depth: 0, n: 0, is_tail: true, bound: HashSet::new(), done: vec![] }
    }
    pub fn function(&mut self, sig: &Signature, body: &mut Block) {
        if self.helpers.is_empty() {
            return;
        }
        self.bound.extend(binders(sig, &Block { brace_token: Default::default(), stmts: vec![] }));
        self.visit_block_mut(body);
    }
    fn callee(&self, e: &Expr) -> Option<(String, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let mut s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                    if s.len() > 1 && s[0] == "Self" {
                        s[0] = self.self_ty.clone()?;
                    }
                    let k2 = if s.len() >= 2 { s[s.len() - 2..].join("::") } else { s.join("::") };
                    let k1 = s.last()?.clone();
                    let k = if self.helpers.contains_key(&k2) { k2 } else if s.len() == 1 || s[0] == "crate" || s[0] == "super" || s[0] == "self" { k1 } else { return None };
                    return self.helpers.contains_key(&k).then(|| (k, c.args.iter().cloned().collect()));
                }
                None
            }
            Expr::MethodCall(m) => {
                let k = format!(".{}", m.method);
                self.helpers.contains_key(&k).then(|| {
                    let mut a = vec![(*m.receiver).clone()];
                    a.extend(m.args.iter().cloned());
                    (k, a)
                })
            }
            Expr::Paren(p) => self.callee(&p.expr),
            _ => None,
        }
    }
    /// the body of the called function; `tried`: the call is followed by `?`; `tail`: its value is the caller's
    fn splice(&mut self, e: &Expr, tried: bool, tail: bool, want: Option<&str>) -> Spliced {
        // `.unwrap()` on the result: what fails inside, fails there
        let (e, unwrapped) = match e {
            Expr::MethodCall(m) if !tried && m.args.len() <= 1 && (m.method == "unwrap" || m.method == "expect") && self.callee(&m.receiver).is_some() => (&*m.receiver, true),
            e => (e, false),
        };
        let (k, args) = match self.callee(e) {
            Some(x) => x,
            None => return Spliced::No,
        };
        if self.depth > 4 {
            return Spliced::No;
        }
        let h = &self.helpers[&k];
        let mut body = h.body.clone();
        let text = body.to_token_stream().to_string();
        if text.split_whitespace().any(|w| w == "return") || (text.contains('?') && !tried && !tail && !unwrapped) {
            return Spliced::No;
        }
        // parameters
        let mut names: Vec<(String, bool, Option<Type>)> = vec![];
        for a in &h.sig.inputs {
            match a {
                FnArg::Receiver(r) => names.push(("self".into(), r.reference.is_none() && r.mutability.is_some(), None)),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => names.push((p.ident.to_string(), p.mutability.is_some(), Some((*t.ty).clone()))),
                    Pat::Wild(_) => names.push(("_".into(), false, None)),
                    _ => return Spliced::No,
                },
            }
        }
        if names.len() != args.len() {
            return Spliced::No;
        }
        self.n += 1;
        let mut locals: HashSet<String> = binders(&h.sig, &body).into_iter().collect();
        let used = idents(&body);
        let mut sub: HashMap<String, Expr> = HashMap::new();
        let mut deref: HashSet<String> = HashSet::new();
        let mut lets: Vec<Stmt> = vec![];
        for ((p, m, ty), a) in names.iter().zip(args.iter()) {
            if p == "_" || (!used.contains(p) && !matches!(a, Expr::Try(_))) {
                continue;
            }
            let mut s = a.clone();
            let (mut refd, mut refm) = (false, false);
            loop {
                s = match s {
                    Expr::Paren(x) => *x.expr,
                    Expr::Reference(x) => {
                        if x.mutability.is_some() { refm = true } else { refd = true }
                        *x.expr
                    }
                    Expr::MethodCall(x) if x.method == "namespace" => *x.receiver,
                    x => {
                        s = x;
                        break;
                    }
                };
            }
            fn plain(e: &Expr) -> bool {
                match e {
                    Expr::Path(p) => p.path.segments.len() == 1 && p.qself.is_none(),
                    Expr::Field(f) => plain(&f.base),
                    Expr::Lit(_) => true,
                    _ => false,
                }
            }
            let is_cs = ty.as_ref().map_or(false, |t| {
                let t = t.to_token_stream().to_string();
                t.split_whitespace().any(|w| w == "CS")
            });
            if plain(&s) && (is_cs || !*m || p == "self") && !matches!(s, Expr::Lit(_)) {
                // no local of the body may capture the argument
                if idents(&s).iter().all(|n| !locals.contains(n) || n == p) {
                    if refm && !is_cs {
                        return Spliced::No;
                    }
                    if refd {
                        deref.insert(p.clone());
                    }
                    sub.insert(p.clone(), s);
                    continue;
                }
            }
            if p == "self" {
                return Spliced::No;
            }
            let pn = if self.bound.contains(p) || args.iter().any(|a| idents(a).contains(p)) { format!("{p}_h{}", self.n) } else { p.clone() };
            let i = id(&pn);
            let prim = ty.as_ref().map_or(false, |t| matches!(t.to_token_stream().to_string().as_str(), "usize" | "u8" | "u16" | "u32" | "u64" | "u128" | "i32" | "i64" | "bool"));
            let st: Stmt = match (m, prim) {
                (true, true) => parse_quote!(let mut #i: #ty = #a;),
                (false, true) => parse_quote!(let #i: #ty = #a;),
                (true, false) => parse_quote!(let mut #i = #a;),
                (false, false) => parse_quote!(let #i = #a;),
            };
            lets.push(st);
            if pn != *p {
                sub.insert(p.clone(), parse_quote!(#i));
            }
            self.bound.insert(pn);
        }
        // the value
        let mut value: Option<Expr> = None;
        if let Some(Stmt::Expr(x, None)) = body.stmts.last() {
            value = Some(x.clone());
            body.stmts.pop();
        }
        if unwrapped {
            Unwrap.visit_block_mut(&mut body);
            if let Some(v) = &mut value {
                Unwrap.visit_expr_mut(v);
            }
            value = match value {
                Some(Expr::Call(c)) if c.args.len() == 1 && matches!(c.func.to_token_stream().to_string().as_str(), "Ok" | "Some") => Some(c.args[0].clone()),
                Some(x) => Some(parse_quote!(#x.unwrap())),
                None => return Spliced::No,
            };
        }
        if tried {
            value = match value {
                Some(Expr::Call(c)) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Ok" => Some(c.args[0].clone()),
                Some(x) => Some(parse_quote!(#x?)),
                None => return Spliced::No,
            };
        }
        let mut body = Block { brace_token: Default::default(), stmts: body.stmts };
        // names bound at the top of the body that the caller has bound already
        let mut map: HashMap<String, String> = HashMap::new();
        for st in &body.stmts {
            if let Stmt::Local(l) = st {
                let b = binders(&h.sig, &Block { brace_token: Default::default(), stmts: vec![Stmt::Local(Local { init: None, ..l.clone() })] });
                let b = &b[binders(&h.sig, &Block { brace_token: Default::default(), stmts: vec![] }).len()..];
                for n in b {
                    if names.iter().any(|p| p.0 == *n) {
                        return Spliced::No;
                    }
                    if want.is_some() && value.as_ref().and_then(name_of_expr).as_deref() == Some(n.as_str()) && want != Some(n.as_str()) && !locals.contains(want.unwrap()) && !self.bound.contains(want.unwrap()) && !used.contains(want.unwrap()) {
                        map.insert(n.clone(), want.unwrap().to_string());
                    } else if self.bound.contains(n) {
                        map.insert(n.clone(), format!("{n}_h{}", self.n));
                    }
                }
            }
        }
        let value_stmt = |v: &Option<Expr>| v.clone().map(|x| Stmt::Expr(x, None));
        let mut whole = body.clone();
        whole.stmts.extend(value_stmt(&value));
        if !map.is_empty() {
            rename(&mut whole, &map);
        }
        Sub { m: &sub, pats: false, deref: &deref }.visit_block_mut(&mut whole);
        locals.clear();
        // `&*self` and the like come out as they were written
        if value.is_some() {
            match whole.stmts.pop() {
                Some(Stmt::Expr(x, None)) => value = Some(x),
                _ => return Spliced::No,
            }
        }
        body = whole;
        self.depth += 1;
        self.done.push(k);
        let mut all = lets;
        all.extend(body.stmts);
        let mut b = Block { brace_token: Default::default(), stmts: all };
        b.stmts.extend(value_stmt(&value));
        let keep = self.bound.clone();
        let t = std::mem::replace(&mut self.is_tail, tail);
        self.visit_block_mut(&mut b);
        self.is_tail = t;
        self.bound.extend(keep);
        self.depth -= 1;
        let value = match (value, b.stmts.last()) {
            (Some(_), Some(Stmt::Expr(_, None))) => match b.stmts.pop() {
                Some(Stmt::Expr(x, None)) => Some(x),
                _ => None,
            },
            _ => None,
        };
        Spliced::Ok(b.stmts, value)
    }
    fn bind(&mut self, s: &Stmt) {
        if let Stmt::Local(l) = s {
            let sig: Signature = parse_quote!(fn f());
            let b = binders(&sig, &Block { brace_token: Default::default(), stmts: vec![Stmt::Local(Local { init: None, ..l.clone() })] });
            self.bound.extend(b);
        }
    }
}

impl<'a> VisitMut for Inline<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let save = self.bound.clone();
        let mut out: Vec<Stmt> = vec![];
        let len = b.stmts.len();
        for (ix, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let last = ix + 1 == len;
            let mut spliced = false;
            match &mut s {
                Stmt::Local(l) => {
                    let want = match &l.pat {
                        Pat::Ident(p) => Some(p.ident.to_string()),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(p) => Some(p.ident.to_string()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(i) = &mut l.init {
                        let r = match &*i.expr {
                            Expr::Try(t) => self.splice(&t.expr, true, false, want.as_deref()),
                            e => self.splice(e, false, false, want.as_deref()),
                        };
                        if let Spliced::Ok(st, Some(v)) = r {
                            for x in &st {
                                self.bind(x);
                            }
                            out.extend(st);
                            if want.is_some() && name_of_expr(&v) == want {
                                // it is bound already, unless the caller's binding is mutable
                                let m = matches!(&l.pat, Pat::Ident(p) if p.mutability.is_some());
                                spliced = !m;
                            }
                            *i.expr = v;
                        }
                    }
                }
                Stmt::Expr(e, semi) => {
                    let tail = last && semi.is_none() && self.is_tail;
                    let r = match &*e {
                        Expr::Try(t) => self.splice(&t.expr, true, false, None),
                        x => self.splice(x, false, tail, None),
                    };
                    if let Spliced::Ok(st, v) = r {
                        for x in &st {
                            self.bind(x);
                        }
                        out.extend(st);
                        match v {
                            Some(v) => {
                                // a value that is thrown away
                                let unit = matches!(&v, Expr::Tuple(t) if t.elems.is_empty());
                                if unit && semi.is_some() { spliced = true } else { *e = v }
                            }
                            None => spliced = true,
                        }
                    }
                }
                _ => {}
            }
            if spliced {
                continue;
            }
            self.visit_stmt_mut(&mut s);
            self.bind(&s);
            out.push(s);
        }
        b.stmts = out;
        self.bound = save;
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        // what the body of a closure gives is the closure's own result
        let save = self.bound.clone();
        let t = std::mem::replace(&mut self.is_tail, true);
        let r = self.splice(&c.body, false, true, None);
        if let Spliced::Ok(st, Some(v)) = r {
            *c.body = parse_quote!({ #(#st)* #v });
        } else if let Expr::Block(b) = &mut *c.body {
            self.visit_block_mut(&mut b.block);
        } else {
            self.visit_expr_mut(&mut c.body);
        }
        self.is_tail = t;
        self.bound = save;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let r = match &*e {
            Expr::Try(t) => self.splice(&t.expr, true, false, None),
            x => self.splice(x, false, false, None),
        };
        if let Spliced::Ok(st, Some(v)) = r {
            *e = if st.is_empty() { parse_quote!((#v)) } else { parse_quote!({ #(#st)* #v }) };
            return;
        }
        let t = std::mem::replace(&mut self.is_tail, false);
        syn::visit_mut::visit_expr_mut(self, e);
        self.is_tail = t;
    }
}

/// named constants the base does not have: their values
pub struct Consts<'a> {
    pub m: &'a HashMap<String, Expr>,
    pub self_ty: Option<String>,
}
impl<'a> VisitMut for Consts<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..8 {
            let k = match &*e {
                Expr::Path(p) if p.qself.is_none() => {
                    let mut s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                    if s.len() > 1 && s[0] == "Self" {
                        s[0] = self.self_ty.clone().unwrap_or_default();
                    }
                    let k = s.join("::");
                    if self.m.contains_key(&k) { k } else { s.last().unwrap().clone() }
                }
                _ => break,
            };
            match self.m.get(&k) {
                Some(x) => *e = if matches!(x, Expr::Lit(_) | Expr::Path(_)) { x.clone() } else { parse_quote!((#x)) },
                None => break,
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = ren_tokens(m.tokens.clone(), self.m);
    }
}

/// functions, constants and closures a body declares for its own use (closures: only those the base does not have)
pub fn local_items(body: &mut Block, base: &[String], helpers: &mut HashMap<String, Helper>, consts: &mut HashMap<String, Expr>) {
    let mut out = vec![];
    for s in std::mem::take(&mut body.stmts) {
        match s {
            Stmt::Item(Item::Fn(f)) => {
                helpers.insert(f.sig.ident.to_string(), Helper { sig: f.sig.clone(), body: (*f.block).clone() });
            }
            Stmt::Item(Item::Const(c)) => {
                consts.insert(c.ident.to_string(), (*c.expr).clone());
            }
            Stmt::Local(l) => {
                if let (Pat::Ident(p), Some(LocalInit { expr, diverge: None, .. })) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &**expr {
                        let n = p.ident.to_string();
                        if !base.contains(&n) && !c.inputs.is_empty() {
                            let name = &p.ident;
                            let mut sig: Signature = parse_quote!(fn #name());
                            let mut ok = true;
                            for x in &c.inputs {
                                match x {
                                    Pat::Ident(_) | Pat::Wild(_) => sig.inputs.push(parse_quote!(#x: _)),
                                    Pat::Type(t) if matches!(&*t.pat, Pat::Ident(_) | Pat::Wild(_)) => sig.inputs.push(parse_quote!(#t)),
                                    _ => ok = false,
                                }
                            }
                            if ok {
                                let b = match &*c.body {
                                    Expr::Block(b) => b.block.clone(),
                                    e => parse_quote!({ #e }),
                                };
                                helpers.insert(n, Helper { sig, body: b });
                                continue;
                            }
                        }
                    }
                }
                out.push(Stmt::Local(l));
            }
            s => out.push(s),
        }
    }
    body.stmts = out;
}

/// `let mut k = A; .. while k < B { ..; k += 1; }` as a loop over the range
pub struct Counting;
fn one_up(s: &Stmt, k: &str) -> bool {
    let t = s.to_token_stream().to_string().replace(' ', "");
    t == format!("{k}+=1;") || t == format!("{k}={k}+1;")
}
impl VisitMut for Counting {
    fn visit_block_mut(&mut self, b: &mut Block) {
        syn::visit_mut::visit_block_mut(self, b);
        let mut w = 0;
        while w < b.stmts.len() {
            self.at(b, w);
            w += 1;
        }
    }
}
impl Counting {
    fn at(&mut self, b: &mut Block, w: usize) -> Option<()> {
        let wh = match &b.stmts[w] {
            Stmt::Expr(Expr::While(x), _) if x.label.is_none() => x.clone(),
            _ => return None,
        };
        let c = match &*wh.cond {
            Expr::Binary(c) => c,
            _ => return None,
        };
        let incl = match c.op {
            BinOp::Lt(_) => false,
            BinOp::Le(_) => true,
            _ => return None,
        };
        let k = name_of_expr(&c.left)?;
        let n = wh.body.stmts.len();
        if n < 2 {
            return None;
        }
        let first = one_up(&wh.body.stmts[0], &k);
        if !first && !one_up(&wh.body.stmts[n - 1], &k) {
            return None;
        }
        let rest: Vec<Stmt> = if first { wh.body.stmts[1..].to_vec() } else { wh.body.stmts[..n - 1].to_vec() };
        let text = rest.iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
        let words: Vec<&str> = text.split_whitespace().collect();
        if words.iter().any(|x| matches!(*x, "continue" | "break")) {
            return None;
        }
        // no other assignment to the counter, nor to what the bound mentions
        let bound = idents(&c.right);
        for i in 0..words.len() {
            let target = words[i] == k || bound.contains(words[i]);
            if target && i + 1 < words.len() && (words[i + 1] == "=" || (words[i + 1].len() == 2 && words[i + 1].ends_with('=') && !matches!(words[i + 1], "==" | "<=" | ">=" | "!="))) {
                return None;
            }
            if words[i] == "mut" && i + 1 < words.len() && (words[i + 1] == k || bound.contains(words[i + 1])) {
                return None;
            }
        }
        // the bound: names, fields, lengths and arithmetic
        let bt = c.right.to_token_stream().to_string();
        if bt.replace(' ', "").replace(".len()", "").contains('(') && !bt.replace(' ', "").starts_with('(') {
            return None;
        }
        if bt.contains("len") {
            // of something the body does not touch
            if words.iter().any(|x| matches!(*x, "push" | "pop" | "truncate" | "resize" | "insert" | "remove" | "clear" | "extend" | "append")) {
                return None;
            }
        }
        let l = (0..w).rev().find(|&j| matches!(&b.stmts[j], Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == k.as_str())))?;
        let init = match &b.stmts[l] {
            Stmt::Local(Local { init: Some(i), .. }) if i.diverge.is_none() => (*i.expr).clone(),
            _ => return None,
        };
        if (l + 1..w).any(|j| idents(&b.stmts[j]).contains(&k)) || (w + 1..b.stmts.len()).any(|j| idents(&b.stmts[j]).contains(&k)) {
            return None;
        }
        if !matches!(init, Expr::Lit(_) | Expr::Path(_)) {
            return None;
        }
        let hi = &c.right;
        let i = id(&k);
        let range: Expr = match (first, incl) {
            (false, false) => parse_quote!(#init..#hi),
            (false, true) => parse_quote!(#init..=#hi),
            (true, false) => parse_quote!((#init + 1)..(#hi + 1)),
            (true, true) => parse_quote!((#init + 1)..(#hi + 2)),
        };
        let pat: Pat = if rest.iter().any(|s| idents(s).contains(&k)) { parse_quote!(#i) } else { parse_quote!(_) };
        let f: Expr = parse_quote!(for #pat in #range { #(#rest)* });
        b.stmts[w] = Stmt::Expr(f, None);
        b.stmts.remove(l);
        Some(())
    }
}
