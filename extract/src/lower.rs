//! Lowers one Rust function of the repository to the dialect Verus accepts.  Purely syntactic:
//! closures are beta-reduced where they are called, iterator chains become indexed loops,
//! operators become calls of the operator traits of the prelude.  What is dropped: generics over
//! the field and the constraint system, `where` clauses, lifetimes, namespaces and other
//! annotations, printing.
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone, Debug)]
pub enum It {
    Range(String, String),
    Ref(String),
    Mut(String),
    Own(String),
    Map(Box<It>, Box<ExprClosure>),
    Enum(Box<It>),
    Zip(Box<It>, Box<It>),
    Skip(Box<It>, String),
    Take(Box<It>, String),
    Rev(Box<It>),
    Chain(Box<It>, Box<It>),
    Cloned(Box<It>),
    /// an expression evaluated anew for each item
    Repeat(String),
}

/// What the text of one function's contract file gives.
#[derive(Default, Clone, Debug)]
pub struct Sidecar {
    pub key: String,
    pub sig_extra: String,
    pub requires: String,
    pub ensures: String,
    pub ret: String,
    pub attrs: String,
    pub params: String,
    /// works on shared cells (cells.rs)
    pub cells: bool,
    pub hooks: HashMap<String, String>,
    pub line: usize,
}

pub struct Lower<'a> {
    pub ret_result: bool,
    pub bp_num: bool,
    pub self_ty: Option<String>,
    pub assoc: HashMap<String, Type>,
    pub side: &'a Sidecar,
    pub used: HashSet<String>,
    pub calls: Vec<String>,
    pub shape: Vec<String>,
    iters: HashMap<String, It>,
    lazies: HashSet<String>,
    lazy_params: HashSet<String>,
    mut_refs: HashSet<String>,
    shared_refs: HashSet<String>,
    cps: bool,
    err: String,
    pending: Vec<(String, String)>,
    n: usize,
    lnames: HashMap<String, usize>,
    loops: usize,
    enforces: usize,
    lets: HashMap<String, usize>,
    callk: HashMap<String, usize>,
    bindk: HashMap<String, usize>,
    self_mut: bool,
    cs: String,
}

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn ty_str(t: &Type, self_ty: &Option<String>, bp_num: bool, lazy: &HashMap<String, String>) -> R<String> {
    Ok(match t {
        Type::Path(p) => {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = p.path.segments.last().unwrap();
            let args: Vec<String> = match &last.arguments {
                PathArguments::AngleBracketed(a) => {
                    let mut v = vec![];
                    for x in &a.args {
                        match x {
                            GenericArgument::Type(t) => {
                                let s = ty_str(t, self_ty, bp_num, lazy)?;
                                v.push(s);
                            }
                            GenericArgument::Lifetime(_) => {}
                            _ => return Err(format!("type argument {}", toks(x))),
                        }
                    }
                    v
                }
                _ => vec![],
            };
            if segs[0] == "Self" && segs.len() == 2 {
                return Ok(match segs[1].as_str() {
                    "Scalar" => "Scalar".into(),
                    "Value" | "Access" | "Params" => format!("{}::{}", if self_ty.as_deref() == Some("G") { "G" } else { "Self" }, segs[1]),
                    _ => return Err(format!("type {}", toks(t))),
                });
            }
            let name = segs.last().unwrap().as_str();
            match name {
                "Self" => self_ty.clone().unwrap_or("Self".into()),
                "CS" => "&mut Cs".into(),
                "LinearCombination" => "Lc".into(),
                "Variable" => "Var".into(),
                "Num" if bp_num && segs.len() == 1 => "BpNum".into(),
                "Scalar" | "Num" | "BigNat" | "Bit" | "Bitvector" | "AllocatedNum" | "Polynomial" | "Boolean" | "AllocatedBit" => name.into(),
                n if lazy.contains_key(n) => lazy[n].clone(),
                "Option" | "Vec" | "Result" => {
                    if args.is_empty() {
                        return Err(format!("type {}", toks(t)));
                    }
                    format!("{}<{}>", name, args.join(", "))
                }
                _ => {
                    let a: Vec<String> = args.into_iter().filter(|x| x != "Scalar").collect();
                    if a.is_empty() { name.to_string() } else { format!("{}<{}>", name, a.join(", ")) }
                }
            }
        }
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, ty_str(&r.elem, self_ty, bp_num, lazy)?),
        Type::Tuple(x) => {
            let v: R<Vec<String>> = x.elems.iter().map(|e| ty_str(e, self_ty, bp_num, lazy)).collect();
            let v = v?;
            if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
        }
        Type::Slice(s) => format!("[{}]", ty_str(&s.elem, self_ty, bp_num, lazy)?),
        Type::Array(a) => format!("[{}; {}]", ty_str(&a.elem, self_ty, bp_num, lazy)?, toks(&a.len)),
        Type::Paren(p) => ty_str(&p.elem, self_ty, bp_num, lazy)?,
        Type::Infer(_) => "_".into(),
        Type::ImplTrait(i) if toks(i).contains("Iterator") && toks(i).contains("Bit <") => "BitIter".into(),
        _ => return Err(format!("type {}", toks(t))),
    })
}

fn has_try(e: &impl ToTokens) -> bool {
    // a `?` anywhere, including in closures that are inlined
    e.to_token_stream().to_string().contains('?')
}
fn has_return(e: &impl ToTokens) -> bool {
    e.to_token_stream().to_string().split_whitespace().any(|w| w == "return")
}

enum Tail {
    /// the expression is itself a Result
    Res,
    /// the value goes where § is
    Val(String),
    /// value is discarded
    Unit,
}

impl<'a> Lower<'a> {
    pub fn new(side: &'a Sidecar) -> Self {
        Lower {
            ret_result: false,
            bp_num: false,
            self_ty: None,
            assoc: Default::default(),
            side,
            used: Default::default(),
            calls: vec![],
            shape: vec![],
            iters: Default::default(),
            lazies: Default::default(),
            lazy_params: Default::default(),
            mut_refs: Default::default(),
            shared_refs: Default::default(),
            cps: false,
            err: "Err(e__) => Err(e__)".into(),
            pending: vec![],
            n: 0,
            lnames: Default::default(),
            loops: 0,
            enforces: 0,
            lets: Default::default(),
            callk: Default::default(),
            bindk: Default::default(),
            self_mut: false,
            cs: "cs".into(),
        }
    }
    /// a trait's default function, lowered as a function over any implementation G
    fn generic(&self) -> bool {
        self.self_ty.as_deref() == Some("G")
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    /// a name by the loop it belongs to, so that it stays when other code comes or goes
    fn lfresh(&mut self, p: &str) -> String {
        let k = self.loops.max(1) - 1;
        let n = self.lnames.entry(format!("{p}{k}")).or_insert(0);
        *n += 1;
        let s = if *n == 1 { String::new() } else { ((b'a' + *n as u8 - 1) as char).to_string() };
        format!("{p}{k}{s}")
    }
    fn hook(&mut self, k: &str) -> String {
        match self.side.hooks.get(k) {
            Some(t) => {
                self.used.insert(k.to_string());
                format!("\n/*@{k}*/ {t}{}\n", if k.ends_with(" after") { ";" } else { "" })
            }
            None => String::new(),
        }
    }

    /// Returns the signature's parameters and the body.
    pub fn function(&mut self, sig: &Signature, body: &Block) -> R<(String, String, String)> {
        // names that Verus reserves
        // (and names the loops below introduce), and the associated types of a trait's implementation
        struct Ren(HashMap<String, Type>);
        impl syn::visit_mut::VisitMut for Ren {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                let t = i.to_string();
                let mine = ["none", "all", "i", "n", "c", "f"].iter().any(|p| t.strip_prefix(p).map_or(false, |d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())))
                    && !["i8", "i16", "i32", "i64", "i128", "f32", "f64"].contains(&t.as_str());
                if i == "nat" || i == "int" || mine {
                    *i = Ident::new(&format!("{i}_"), i.span());
                }
            }
            fn visit_type_mut(&mut self, t: &mut Type) {
                if let Type::Path(p) = t {
                    let s = &p.path.segments;
                    if s.len() == 2 && s[0].ident == "Self" {
                        if let Some(u) = self.0.get(&s[1].ident.to_string()) {
                            *t = u.clone();
                        }
                    }
                }
                syn::visit_mut::visit_type_mut(self, t);
            }
        }
        let mut ren = Ren(self.assoc.clone());
        let (mut sig, mut body) = (sig.clone(), body.clone());
        syn::visit_mut::VisitMut::visit_signature_mut(&mut ren, &mut sig);
        syn::visit_mut::VisitMut::visit_block_mut(&mut ren, &mut body);
        let (sig, body) = (&sig, &body);
        let mut lazy: HashMap<String, String> = HashMap::new();
        // F: FnOnce() -> Result<T, E>
        let mut bounds: Vec<(String, String, Option<Type>)> = vec![];
        let mut add = |name: String, b: &TypeParamBound| {
            if let TypeParamBound::Trait(t) = b {
                let l = t.path.segments.last().unwrap();
                let r = match &l.arguments {
                    PathArguments::Parenthesized(p) => match &p.output {
                        ReturnType::Type(_, t) => Some((**t).clone()),
                        _ => None,
                    },
                    _ => None,
                };
                bounds.push((name, l.ident.to_string(), r));
            }
        };
        for g in &sig.generics.params {
            if let GenericParam::Type(t) = g {
                for b in &t.bounds {
                    add(t.ident.to_string(), b);
                }
            }
        }
        if let Some(w) = &sig.generics.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    for b in &t.bounds {
                        add(toks(&t.bounded_ty), b);
                    }
                }
            }
        }
        for (n, b, r) in &bounds {
            if b == "FnOnce" {
                if let Some(r) = r {
                    let t = ty_str(r, &self.self_ty, self.bp_num, &lazy)?;
                    lazy.insert(n.clone(), format!("Option<{t}>"));
                }
            }
            if b == "DoubleEndedIterator" {
                lazy.insert(n.clone(), "&Vec<Scalar>".into());
            }
        }
        let mut ps = vec![];
        let mut pre = String::new();
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(r) if self.generic() => {
                    if r.reference.is_none() || r.mutability.is_some() {
                        return Err("receiver of a trait's default function".into());
                    }
                    ps.push("self__: &G".into());
                }
                FnArg::Receiver(r) => {
                    if r.reference.is_some() {
                        ps.push(if r.mutability.is_some() { "&mut self".to_string() } else { "&self".into() });
                    } else {
                        ps.push("self".into());
                        if r.mutability.is_some() {
                            self.self_mut = true;
                            pre.push_str("let mut self_ = self;\n");
                        }
                    }
                }
                FnArg::Typed(t) => {
                    let ty = ty_str(&t.ty, &self.self_ty, self.bp_num, &lazy)?;
                    let (name, m) = match &*t.pat {
                        Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                        Pat::Wild(_) => (self.fresh("_u"), false),
                        p => return Err(format!("parameter pattern {}", toks(p))),
                    };
                    if ty == "&mut Cs" {
                        self.cs = name.clone();
                        ps.push(format!("{name}: {ty}"));
                    } else {
                        if let Type::Path(p) = &*t.ty {
                            if let Some(i) = p.path.get_ident() {
                                let i = i.to_string();
                                if bounds.iter().any(|b| b.0 == i && b.1 == "FnOnce") {
                                    self.lazy_params.insert(name.clone());
                                }
                                if bounds.iter().any(|b| b.0 == i && b.1 == "DoubleEndedIterator") {
                                    self.iters.insert(name.clone(), It::Ref(format!("(*{name})")));
                                }
                            }
                        }
                        if let Type::Reference(r) = &*t.ty {
                            if r.mutability.is_some() { self.mut_refs.insert(name.clone()); } else { self.shared_refs.insert(name.clone()); }
                        }
                        ps.push(format!("{}{name}: {ty}", if m { "mut " } else { "" }));
                    }
                }
            }
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                let s = ty_str(t, &self.self_ty, self.bp_num, &lazy)?;
                self.ret_result = s.starts_with("Result<");
                s
            }
        };
        let mut b = String::from("{\n");
        b.push_str(&pre);
        b.push_str(&self.hook("entry"));
        b.push_str(&self.stmts(&body.stmts, true, !ret.is_empty() && ret != "()")?);
        b.push_str("}\n");
        Ok((ps.join(", "), ret, b))
    }

    /// Statements of a block in direct mode, with the final expression if there is one.
    fn stmts(&mut self, ss: &[Stmt], top: bool, valued: bool) -> R<String> {
        let mut o = String::new();
        for (i, s) in ss.iter().enumerate() {
            let last = i + 1 == ss.len();
            match s {
                Stmt::Expr(e, semi) if last && semi.is_none() => {
                    if top {
                        let x = if self.ret_result { self.tail_result(e)? } else { self.ex(e)? };
                        if valued {
                            let h = self.hook("ret");
                            if h.is_empty() {
                                o.push_str(&x);
                            } else {
                                o.push_str(&format!("let r__ = {x};{h}r__\n"));
                            }
                        } else {
                            let h = self.hook("ret");
                            o.push_str(&format!("{x};{h}\n"));
                        }
                    } else {
                        o.push_str(&self.ex(e)?);
                        o.push('\n');
                    }
                }
                Stmt::Expr(Expr::Return(r), Some(_)) if last && top => {
                    let x = match &r.expr {
                        Some(e) => if self.ret_result { self.tail_result(e)? } else { self.ex(e)? },
                        None => "()".into(),
                    };
                    let h = self.hook("ret");
                    o.push_str(&format!("let r__ = {x};{h}r__\n"));
                }
                _ => {
                    o.push_str(&self.stmt(s)?);
                    if last && top {
                        o.push_str(&self.hook("ret"));
                    }
                }
            }
        }
        Ok(o)
    }

    /// The final expression of a function returning Result, which may be a collect into one.
    fn tail_result(&mut self, e: &Expr) -> R<String> {
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.turbofish.is_none() {
                let it = self.as_iter(&m.receiver)?.ok_or("collect of what is not an iterator")?;
                let v = self.collect(it, Coll::Res)?;
                return Ok(format!("Ok({v})"));
            }
        }
        self.ex(e)
    }

    fn stmt(&mut self, s: &Stmt) -> R<String> {
        Ok(match s {
            Stmt::Local(l) => {
                let init = match &l.init {
                    Some(i) => {
                        if i.diverge.is_some() {
                            return Err("let else".into());
                        }
                        &i.expr
                    }
                    None => return Ok(format!("let {};\n", self.pat_decl(&l.pat)?)),
                };
                let name = pat_name(&l.pat);
                if let Some(n) = &name {
                    self.iters.remove(n);
                    self.lazies.remove(n);
                    self.mut_refs.remove(n);
                    self.shared_refs.remove(n);
                    // a lazy cell
                    if let Expr::Call(c) = &**init {
                        if toks(&c.func).replace(' ', "") == "LazyCell::new" {
                            let body = match &c.args[0] {
                                Expr::Path(p) => toks(p),
                                Expr::Closure(cl) => self.lazy_arg(cl)?,
                                x => return Err(format!("lazy {}", toks(x))),
                            };
                            self.lazies.insert(n.clone());
                            return Ok(format!("let {n} = {body};\n"));
                        }
                    }
                    if !matches!(&**init, Expr::Range(_)) {
                        if let Some(it) = self.as_iter(init)? {
                            self.iters.insert(n.clone(), it);
                            return Ok(String::new());
                        }
                    }
                    if let Expr::Reference(r) = &**init {
                        if r.mutability.is_some() { self.mut_refs.insert(n.clone()); } else { self.shared_refs.insert(n.clone()); }
                    }
                }
                // let mut cs = cs.namespace(..)
                if let Expr::MethodCall(m) = &**init {
                    if m.method == "namespace" {
                        let x = self.ex(init)?;
                        let n = name.clone().ok_or("namespace pattern")?;
                        let o = format!("let {n} = {x};\n");
                        return Ok(o);
                    }
                }
                let coll = pat_type(&l.pat);
                let x = if let (Expr::MethodCall(m), Some(t)) = (&**init, coll) {
                    if m.method == "collect" && m.turbofish.is_none() && toks(t).starts_with("Vec") {
                        let it = self.as_iter(&m.receiver)?.ok_or("collect of what is not an iterator")?;
                        self.collect(it, Coll::Vec)?
                    } else {
                        self.ex(init)?
                    }
                } else {
                    self.ex(init)?
                };
                let mut o = format!("let {} = {x};\n", self.pat_decl(&l.pat)?);
                let name = name.or_else(|| match &l.pat {
                    // a tuple goes by its first name
                    Pat::Tuple(t) => t.elems.iter().find_map(|p| if let Pat::Ident(i) = p { Some(i.ident.to_string()) } else { None }),
                    _ => None,
                });
                if let Some(n) = name {
                    let k = self.lets.entry(n.clone()).or_insert(0);
                    let key = if *k == 0 { format!("after let {n}") } else { format!("after let {n}#{k}") };
                    *k += 1;
                    o.push_str(&self.hook(&key));
                }
                o
            }
            Stmt::Expr(e, _) => {
                let k = self.enforces;
                let x = self.ex(e)?;
                let mut o = if x.is_empty() { String::new() } else { format!("{x};\n") };
                if let Some(c) = call_name(e) {
                    let n = self.callk.entry(c.clone()).or_insert(0);
                    let key = format!("after call {c}#{n}");
                    *n += 1;
                    o.push_str(&self.hook(&key));
                }
                if self.enforces > k {
                    o.push_str(&self.hook(&format!("enforce {}", self.enforces - 1)));
                }
                o
            }
            Stmt::Macro(m) => {
                let x = self.mac(&m.mac)?;
                if x.is_empty() { x } else { format!("{x};\n") }
            }
            Stmt::Item(Item::Use(u)) => {
                let t = toks(u).replace(' ', "");
                if t.contains("gadgets::num::Num") {
                    self.bp_num = true;
                }
                String::new()
            }
            s => return Err(format!("statement {}", toks(s))),
        })
    }

    fn pat_decl(&mut self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Type(t) => {
                let ty = ty_str(&t.ty, &self.self_ty, self.bp_num, &HashMap::new())?;
                if ty == "_" { self.pat(&t.pat)? } else { format!("{}: {ty}", self.pat(&t.pat)?) }
            }
            p => self.pat(p)?,
        })
    }
    fn pat(&mut self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                self.iters.remove(&n);
                // `ref` is implied by matching on a reference
                format!("{}{}", if i.mutability.is_some() { "mut " } else { "" }, n)
            }
            Pat::Wild(_) => "_".into(),
            Pat::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|e| self.pat(e)).collect();
                format!("({})", v?.join(", "))
            }
            Pat::TupleStruct(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|e| self.pat(e)).collect();
                format!("{}({})", toks(&t.path).replace(' ', ""), v?.join(", "))
            }
            Pat::Paren(x) => self.pat(&x.pat)?,
            Pat::Or(o) => {
                let v: R<Vec<String>> = o.cases.iter().map(|e| self.pat(e)).collect();
                v?.join(" | ")
            }
            Pat::Path(p) => toks(p).replace(' ', ""),
            Pat::Lit(l) => toks(l),
            p => return Err(format!("pattern {}", toks(p))),
        })
    }

    fn mac(&mut self, m: &Macro) -> R<String> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        Ok(match n.as_str() {
            "eprintln" | "println" | "debug_assert" => String::new(),
            "format" => {
                let t = m.tokens.to_string();
                match t.strip_prefix("\"{}\" ,") {
                    Some(a) => {
                        let e: Expr = parse_str(a).map_err(|e| e.to_string())?;
                        format!("dec__(&({}))", self.ex(&e)?)
                    }
                    None => "\"\"".into(),
                }
            }
            "unreachable" => "unreachable__()".into(),
            "panic" => "panic__()".into(),
            "assert" => {
                let e: Expr = m.parse_body_with(|i: parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    let _: proc_macro2::TokenStream = i.parse()?;
                    Ok(e)
                }).map_err(|e| e.to_string())?;
                if toks(&e).contains(". all (") {
                    return Ok(format!("assert__({})", self.ex(&e)?));
                }
                format!("assert__({})", self.ex(&e)?)
            }
            "vec" => {
                let t = m.tokens.to_string();
                if t.trim().is_empty() {
                    "Vec::new()".into()
                } else if let Ok((a, b)) = m.parse_body_with(|i: parse::ParseStream| {
                    let a: Expr = i.parse()?;
                    let _: Token![;] = i.parse()?;
                    let b: Expr = i.parse()?;
                    Ok((a, b))
                }) {
                    format!("vec_rep({}, {})", self.ex(&a)?, self.ex(&b)?)
                } else {
                    let v = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
                    let v: R<Vec<String>> = v.iter().map(|e| self.ex(e)).collect();
                    let k = self.fresh("v__");
                    format!("{{ let mut {k} = Vec::new(); {} {k} }}", v?.iter().map(|x| format!("{k}.push({x});")).collect::<Vec<_>>().join(" "))
                }
            }
            _ => return Err(format!("macro {n}!")),
        })
    }

    /// `|| body`, run only when the constraint system computes witnesses: an Option.
    fn lazy_arg(&mut self, c: &ExprClosure) -> R<String> {
        let b = self.closure_result(c)?;
        Ok(format!("if {}.wit() {{ Some({b}) }} else {{ None }}", self.cs))
    }
    /// The body of `|| body` as an expression of type Result.
    fn closure_result(&mut self, c: &ExprClosure) -> R<String> {
        if !c.inputs.is_empty() {
            return Err("closure with parameters".into());
        }
        let save = (self.cps, self.err.clone(), std::mem::take(&mut self.pending));
        self.cps = true;
        self.err = "Err(e__) => Err(e__)".into();
        let r = self.cps_tail(&c.body, &Tail::Res);
        self.cps = save.0;
        self.err = save.1;
        self.pending = save.2;
        r
    }

    fn wrap(&self, ps: Vec<(String, String)>, inner: String) -> String {
        let mut o = inner;
        for (t, x) in ps.into_iter().rev() {
            o = format!("match {x} {{ {}, Ok({t}) => {{ {o} }} }}", self.err);
        }
        o
    }
    fn taken(&mut self) -> Vec<(String, String)> {
        std::mem::take(&mut self.pending)
    }
    fn cps_stmts(&mut self, ss: &[Stmt], tail: &Tail) -> R<String> {
        if ss.is_empty() {
            return Ok(match tail {
                Tail::Unit => "()".into(),
                Tail::Val(k) => k.replace('§', "()"),
                Tail::Res => return Err("closure without a value".into()),
            });
        }
        let (s, rest) = (&ss[0], &ss[1..]);
        if rest.is_empty() {
            if let Stmt::Expr(e, None) = s {
                return self.cps_tail(e, tail);
            }
            if let Stmt::Expr(Expr::Return(r), Some(_)) = s {
                return self.cps_tail(r.expr.as_ref().ok_or("return")?, &Tail::Res);
            }
        }
        // if c { ...; return x; }
        if let Stmt::Expr(Expr::If(i), _) = s {
            if i.else_branch.is_none() && has_return(&i.then_branch) {
                let c = self.ex(&i.cond)?;
                let ps = self.taken();
                let t = self.cps_stmts(&i.then_branch.stmts, tail)?;
                let r = self.cps_stmts(rest, tail)?;
                return Ok(self.wrap(ps, format!("if {c} {{ {t} }} else {{ {r} }}")));
            }
        }
        if let Stmt::Expr(Expr::ForLoop(f), _) = s {
            if has_try(&f.body) {
                let k = format!("err__{}", self.loops);
                let save = self.err.clone();
                let (pre, body) = self.for_loop(f, Some(&k))?;
                self.err = save;
                let r = self.cps_stmts(rest, tail)?;
                return Ok(format!(
                    "{{ let mut {k}: Option<SynthesisError> = None;\n{pre}{body}\nmatch {k} {{ Some(e__) => {}, None => {{ {r} }} }} }}",
                    self.err.trim_start_matches("Err(e__) => ")
                ));
            }
        }
        if has_return(s) {
            return Err(format!("return inside a closure: {}", toks(s)));
        }
        let t = self.stmt(s)?;
        let ps = self.taken();
        let r = self.cps_stmts(rest, tail)?;
        Ok(self.wrap(ps, format!("{t}{r}")))
    }
    fn cps_tail(&mut self, e: &Expr, tail: &Tail) -> R<String> {
        match e {
            Expr::Block(b) => return Ok(format!("{{ {} }}", self.cps_stmts(&b.block.stmts, tail)?)),
            Expr::Paren(p) => return self.cps_tail(&p.expr, tail),
            Expr::Return(r) => return self.cps_tail(r.expr.as_ref().ok_or("return")?, &Tail::Res),
            Expr::If(i) if !matches!(&*i.cond, Expr::Let(_)) => {
                let c = self.ex(&i.cond)?;
                let ps = self.taken();
                let a = self.cps_stmts(&i.then_branch.stmts, tail)?;
                let b = match &i.else_branch {
                    Some((_, e)) => self.cps_tail(e, tail)?,
                    None => self.cps_stmts(&[], tail)?,
                };
                return Ok(self.wrap(ps, format!("if {c} {{ {a} }} else {{ {b} }}")));
            }
            Expr::Match(m) => {
                let s = self.scrutinee(&m.expr)?;
                let ps = self.taken();
                let mut arms = String::new();
                for a in &m.arms {
                    if a.guard.is_some() {
                        return Err("match guard".into());
                    }
                    let p = self.pat(&a.pat)?;
                    arms.push_str(&format!("{p} => {{ {} }}\n", self.cps_tail(&a.body, tail)?));
                }
                return Ok(self.wrap(ps, format!("match {s} {{ {arms} }}")));
            }
            Expr::Call(c) if matches!(tail, Tail::Res) && toks(&c.func) == "Ok" => {
                return self.cps_tail(&c.args[0], &Tail::Val("Ok(§)".into()));
            }
            Expr::MethodCall(m) if m.method == "map_err" => return self.cps_tail(&m.receiver, tail),
            // r.and_then(|x| body)
            Expr::MethodCall(m) if m.method == "and_then" && matches!(tail, Tail::Res) && self.kind(&m.receiver) == Kind::Res => {
                let c = closure(&m.args[0])?;
                let x = self.ex(&m.receiver)?;
                let ps = self.taken();
                let p = self.pat(&c.inputs[0])?;
                let b = self.cps_tail(&c.body, tail)?;
                return Ok(self.wrap(ps, format!("match {x} {{ {}, Ok({p}) => {{ {b} }} }}", self.err)));
            }
            _ => {}
        }
        let x = self.ex(e)?;
        let ps = self.taken();
        Ok(self.wrap(ps, match tail {
            Tail::Res => x,
            Tail::Val(k) => k.replace('§', &x),
            Tail::Unit => format!("{x};"),
        }))
    }

    fn scrutinee(&mut self, e: &Expr) -> R<String> {
        // *cell.borrow()
        if let Expr::Unary(u) = e {
            if let (UnOp::Deref(_), Expr::MethodCall(m)) = (&u.op, &*u.expr) {
                if m.method == "borrow" {
                    if let Expr::Path(p) = &*m.receiver {
                        let n = toks(p);
                        if self.lazies.contains(&n) {
                            return Ok(format!("{n}.as_ref().unwrap()"));
                        }
                    }
                }
            }
        }
        self.ex(e)
    }

    fn block(&mut self, b: &Block) -> R<String> {
        if self.cps && has_try(b) && b.stmts.len() > 1 {
            return Err(format!("nested block with `?` in a closure: {}", toks(b)));
        }
        let saved = (self.iters.clone(), self.lazies.clone());
        let x = self.stmts(&b.stmts, false, true)?;
        self.iters = saved.0;
        self.lazies = saved.1;
        Ok(format!("{{\n{x}}}"))
    }

    fn lc_closure(&mut self, e: &Expr) -> R<String> {
        let c = closure(e)?;
        let p = self.pat(&c.inputs[0])?;
        let b = self.ex(&c.body)?;
        Ok(if toks(&c.body) == toks(&c.inputs[0]) { "Lc::zero()".into() } else { format!("{{ let {p} = Lc::zero(); {b} }}") })
    }

    pub fn ex(&mut self, e: &Expr) -> R<String> {
        let x = self.ex0(e)?;
        // hook `bind NAME#k`: the value of the k-th call of NAME, as b__
        let direct = match e {
            Expr::MethodCall(m) => m.method != "unwrap",
            Expr::Call(_) => true,
            _ => false,
        };
        if let (true, Some(c)) = (direct, call_name(e)) {
            let n = self.bindk.entry(c.clone()).or_insert(0);
            let key = format!("bind {c}#{n}");
            *n += 1;
            let h = self.hook(&key);
            if !h.is_empty() {
                return Ok(format!("{{ let b__ = {x};{h}b__ }}"));
            }
        }
        Ok(x)
    }
    fn ex0(&mut self, e: &Expr) -> R<String> {
        Ok(match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(_) | Lit::Bool(_) | Lit::Str(_) => toks(l),
                _ => return Err(format!("literal {}", toks(l))),
            },
            Expr::Path(p) => self.path(&p.path)?,
            Expr::Paren(p) => {
                if let Expr::Range(_) = &*p.expr {
                    return Err("range as a value".into());
                }
                format!("({})", self.ex(&p.expr)?)
            }
            Expr::Group(p) => self.ex(&p.expr)?,
            Expr::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|e| self.ex(e)).collect();
                let v = v?;
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            Expr::Field(f) => {
                let m = match &f.member {
                    Member::Named(n) => n.to_string(),
                    Member::Unnamed(i) => i.index.to_string(),
                };
                format!("{}.{m}", self.ex(&f.base)?)
            }
            Expr::Index(i) => match &*i.index {
                Expr::Range(r) => {
                    let b = self.ex(&i.expr)?;
                    let lo = match &r.start { Some(e) => self.ex(e)?, None => "0".into() };
                    match &r.end {
                        Some(e) => format!("(*slice__({b}, {lo}, {}))", self.ex(e)?),
                        None => format!("(*slice_from__({b}, {lo}))"),
                    }
                }
                x => format!("{}[{}]", self.ex(&i.expr)?, self.ex(x)?),
            },
            Expr::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.ex(&r.expr)?),
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => {
                    if let Expr::MethodCall(m) = &*u.expr {
                        if m.method == "borrow" {
                            return Err("borrow of a lazy cell outside a match".into());
                        }
                    }
                    format!("(*{})", self.ex(&u.expr)?)
                }
                UnOp::Not(_) => format!("(!{})", self.ex(&u.expr)?),
                UnOp::Neg(_) => format!("TNeg::tneg({})", self.ex(&u.expr)?),
                _ => return Err("operator".into()),
            },
            Expr::Binary(b) => self.binary(b)?,
            Expr::Assign(a) => format!("{} = {}", self.ex(&a.left)?, self.ex(&a.right)?),
            Expr::Cast(c) => {
                let t = ty_str(&c.ty, &self.self_ty, self.bp_num, &HashMap::new())?;
                format!("({} as {t})", self.ex(&c.expr)?)
            }
            Expr::Block(b) => self.block(&b.block)?,
            Expr::If(i) => {
                let c = match &*i.cond {
                    Expr::Let(l) => {
                        let s = self.ex(&l.expr)?;
                        if toks(&l.expr).ends_with(". as_mut ()") {
                            if let Pat::TupleStruct(t) = &*l.pat {
                                if let Some(n) = pat_name(&t.elems[0]) {
                                    self.mut_refs.insert(n);
                                }
                            }
                        }
                        format!("let {} = {s}", self.pat(&l.pat)?)
                    }
                    c => self.ex(c)?,
                };
                self.shape.push("if".into());
                let t = self.block(&i.then_branch)?;
                let e = match &i.else_branch {
                    Some((_, e)) => format!(" else {}", match &**e { Expr::If(_) => self.ex(e)?, Expr::Block(b) => self.block(&b.block)?, _ => return Err("else".into()) }),
                    None => String::new(),
                };
                format!("if {c} {t}{e}")
            }
            Expr::Match(m) => {
                let s = self.scrutinee(&m.expr)?;
                self.shape.push(format!("match{}", m.arms.len()));
                let cmp = toks(&m.expr).contains(". cmp (");
                let mut arms = String::new();
                for a in &m.arms {
                    if a.guard.is_some() {
                        return Err("match guard".into());
                    }
                    let mut p = self.pat(&a.pat)?;
                    if cmp {
                        p = p.replace("std::cmp::", "");
                    }
                    arms.push_str(&format!("{p} => {{ {} }}\n", self.ex(&a.body)?));
                }
                format!("match {s} {{ {arms} }}")
            }
            Expr::Return(r) => match &r.expr {
                Some(e) => {
                    if self.cps {
                        return Err("return inside a closure".into());
                    }
                    let x = if self.ret_result { self.tail_result(e)? } else { self.ex(e)? };
                    format!("return {x}")
                }
                None => "return".into(),
            },
            Expr::Try(t) => {
                if self.cps {
                    let x = self.ex(&t.expr)?;
                    let v = self.fresh("q__");
                    self.pending.push((v.clone(), x));
                    v
                } else {
                    // collect into a result
                    if let Expr::MethodCall(m) = &*t.expr {
                        if m.method == "collect" {
                            let tf = m.turbofish.as_ref().map(|t| toks(t)).unwrap_or_default();
                            if tf.contains("Result") || m.turbofish.is_none() {
                                let it = self.as_iter(&m.receiver)?.ok_or("collect of what is not an iterator")?;
                                return self.collect(it, Coll::Res);
                            }
                        }
                    }
                    format!("{}?", self.ex(&t.expr)?)
                }
            }
            Expr::ForLoop(f) => {
                if self.cps && has_try(&f.body) {
                    return Err("loop with `?` in the middle of a closure".into());
                }
                let (pre, body) = self.for_loop(f, None)?;
                format!("{{ {pre}{body} }}")
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                self.shape.push("while".into());
                let b = self.hook(&format!("loop {k} before"));
                let inv = self.hook(&format!("loop {k} inv"));
                let beg = self.hook(&format!("loop {k} begin"));
                let end = self.hook(&format!("loop {k} end"));
                let aft = self.hook(&format!("loop {k} after"));
                let c = self.ex(&w.cond)?;
                let body = self.stmts(&w.body.stmts, false, false)?;
                format!("{{ {b}while {c}\n{inv}\n{{ {beg}{body};{end} }}{aft} }}")
            }
            Expr::Macro(m) => self.mac(&m.mac)?,
            Expr::Struct(s) => {
                let mut n = toks(&s.path).replace(' ', "");
                if n == "Self" {
                    n = self.self_ty.clone().ok_or("Self")?;
                }
                if n == "Num" && self.bp_num {
                    n = "BpNum".into();
                }
                if s.rest.is_some() {
                    return Err("struct update".into());
                }
                let mut fs = vec![];
                for f in &s.fields {
                    let m = match &f.member { Member::Named(n) => n.to_string(), _ => return Err("field".into()) };
                    fs.push(format!("{m}: {}", self.ex(&f.expr)?));
                }
                format!("{n} {{ {} }}", fs.join(", "))
            }
            Expr::Call(c) => self.call(c)?,
            Expr::MethodCall(m) => self.method(m)?,
            e => return Err(format!("expression {}", toks(e))),
        })
    }

    fn path(&mut self, p: &Path) -> R<String> {
        let s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
        let j = s.join("::");
        Ok(match j.as_str() {
            "self" if self.generic() => "self__".into(),
            "self" if self.self_mut => "self_".into(),
            "Scalar::ONE" => "Scalar::one()".into(),
            "Scalar::ZERO" => "Scalar::zero()".into(),
            "Scalar::CAPACITY" | "Self::Scalar::CAPACITY" => "Scalar::capacity()".into(),
            "Scalar::NUM_BITS" => "Scalar::num_bits()".into(),
            _ if s.len() == 1 => {
                if self.iters.contains_key(&j) {
                    return Err(format!("iterator {j} used as a value"));
                }
                j
            }
            "Ordering::Less" | "Ordering::Equal" | "Ordering::Greater" | "SynthesisError::Unsatisfiable" | "SynthesisError::AssignmentMissing" | "Sign::Plus" => j,
            _ => return Err(format!("path {j}")),
        })
    }

    fn binary(&mut self, b: &ExprBinary) -> R<String> {
        // constant folding of literals
        if let Some(v) = const_int(&Expr::Binary(b.clone())) {
            return Ok(v);
        }
        use BinOp::*;
        let l = self.ex(&b.left)?;
        let r = self.ex(&b.right)?;
        let tr = |t: &str, f: &str| Ok::<String, String>(format!("{t}::{f}({l}, {r})"));
        let cmp = |f: &str| Ok::<String, String>(format!("TCmp::{f}(&({l}), &({r}))"));
        let asg = |t: &str, f: &str| {
            // *x += y with x: &mut T
            Ok::<String, String>(format!("{t}::{f}(&mut {l}, {r})"))
        };
        match b.op {
            Add(_) => tr("TAdd", "tadd"),
            Sub(_) => tr("TSub", "tsub"),
            Mul(_) => tr("TMul", "tmul"),
            Div(_) => tr("TDiv", "tdiv"),
            Rem(_) => tr("TRem", "trem"),
            Shl(_) => tr("TShl", "tshl"),
            Shr(_) => tr("TShr", "tshr"),
            BitAnd(_) => tr("TAnd", "tand"),
            And(_) => Ok(format!("({l} && {r})")),
            Or(_) => Ok(format!("({l} || {r})")),
            Eq(_) => cmp("teq"),
            Ne(_) => Ok(format!("(!{})", cmp("teq")?)),
            Lt(_) => cmp("tlt"),
            Le(_) => cmp("tle"),
            Gt(_) => Ok(format!("TCmp::tlt(&({r}), &({l}))")),
            Ge(_) => Ok(format!("TCmp::tle(&({r}), &({l}))")),
            AddAssign(_) => asg("TAddA", "tadda"),
            SubAssign(_) => asg("TSubA", "tsuba"),
            MulAssign(_) => asg("TMulA", "tmula"),
            DivAssign(_) => asg("TDivA", "tdiva"),
            RemAssign(_) => asg("TRemA", "trema"),
            ShlAssign(_) => asg("TShlA", "tshla"),
            ShrAssign(_) => asg("TShrA", "tshra"),
            _ => Err(format!("operator {}", toks(&b.op))),
        }
    }

    fn args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>, pre: &mut String) -> R<Vec<String>> {
        let mut v = vec![];
        for x in a {
            if let Expr::Closure(c) = x {
                if c.inputs.is_empty() {
                    let k = self.fresh("f__");
                    let b = self.lazy_arg(c)?;
                    pre.push_str(&format!("let {k} = {b}; "));
                    v.push(k);
                    continue;
                }
                return Err(format!("closure argument {}", toks(c)));
            }
            if let Expr::Path(p) = x {
                let n = toks(p);
                if let Some(it) = self.iters.get(&n).cloned() {
                    if let It::Ref(s) = it {
                        v.push(format!("&{s}"));
                        continue;
                    }
                }
            }
            if let Expr::MethodCall(m) = x {
                if m.method == "iter" {
                    let r = self.ex(&m.receiver)?;
                    v.push(format!("vref__(&{r})"));
                    continue;
                }
            }
            // the constraint system passed on
            if let Expr::Path(p) = x {
                if toks(p) == self.cs {
                    v.push(format!("&mut *{}", self.cs));
                    continue;
                }
            }
            v.push(self.ex(x)?);
        }
        Ok(v)
    }

    fn call(&mut self, c: &ExprCall) -> R<String> {
        let f = match &*c.func {
            Expr::Path(p) => p,
            f => return Err(format!("call of {}", toks(f))),
        };
        let segs: Vec<String> = f.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let mut j = segs.join("::");
        if let Some(st) = &self.self_ty {
            if segs[0] == "Self" && segs.len() == 2 {
                j = format!("{st}::{}", segs[1]);
            }
        }
        if self.generic() && segs.len() == 2 && (segs[0] == "Gadget" || segs[0] == "Self") {
            j = match segs[1].as_str() {
                "mux_tree" | "switch" | "assert_equal" | "inputize" | "as_nums" => format!("{}__", segs[1]),
                m => format!("G::{m}"),
            };
        }
        if !self.generic() && segs.len() == 2 && segs[0] == "Gadget" && matches!(segs[1].as_str(), "mux_tree" | "switch" | "assert_equal" | "inputize" | "as_nums") {
            j = format!("{}__", segs[1]);
        }
        // f() of a lazy parameter
        if segs.len() == 1 && self.lazy_params.contains(&segs[0]) && c.args.is_empty() {
            return Ok(format!("{}.unwrap()", segs[0]));
        }
        if j == "bool::from" {
            return Ok(format!("choice__({})", self.ex(&c.args[0])?));
        }
        if j == "SynthesisError::from" {
            return Ok("SynthesisError::IoError".into());
        }
        if j == "Scalar::from_u128" {
            // the type of a shifted literal
            if let Expr::Binary(b) = &c.args[0] {
                if let (BinOp::Shl(_), Expr::Lit(l)) = (&b.op, &*b.left) {
                    let r = self.ex(&b.right)?;
                    return Ok(format!("Scalar::from_u128(TShl::tshl({}u128, {r}))", toks(l)));
                }
            }
        }
        let map = match j.as_str() {
            "Scalar::from" => "Scalar::from_u64",
            "BigInt::from" => "ToBig::to_big",
            "LinearCombination::zero" => "Lc::zero",
            "LinearCombination::from_variable" => "Lc::from_variable",
            "CS::one" => "Cs::one",
            "std::mem::replace" | "mem::replace" => "mem_replace",
            "std::cmp::max" | "max" | "cmp::max" => "TMax::tmax",
            "std::cmp::min" | "min" | "cmp::min" => "TMax::tmin",
            "BigInt::from_bytes_le" => "bigint_from_bytes_le",
            "Scalar::from_str_vartime" => "Scalar::from_str_vartime",
            "std::iter::repeat" | "iter::repeat" | "std::iter::repeat_with" => return Err("iterator used as a value".into()),
            _ => "",
        };
        let target = if !map.is_empty() {
            map.to_string()
        } else if j.starts_with("Num::") && self.bp_num {
            format!("Bp{j}")
        } else {
            match j.as_str() {
                "num::Num::from" => "Num::from".into(),
                "num::Num::alloc" => "Num::alloc".into(),
                _ => j.trim_start_matches("median::").trim_start_matches("crate::").to_string(),
            }
        };
        let mut pre = String::new();
        let a = self.args(&c.args, &mut pre)?;
        self.note(&target);
        // overloaded conversions by the argument's type
        let out = match target.as_str() {
            "Num::from" | "BpNum::from" | "Boolean::from" | "Polynomial::from" | "BigNat::from" => format!("TFrom::tfrom::<{}>({})", target.trim_end_matches("::from"), a.join(", ")),
            _ => format!("{target}({})", a.join(", ")),
        };
        let out = if target.ends_with("::from") && out.starts_with("TFrom") {
            let ty = target.trim_end_matches("::from");
            format!("<{ty} as TFrom<_>>::tfrom({})", a.join(", "))
        } else {
            out
        };
        Ok(if pre.is_empty() { out } else { format!("{{ {pre}{out} }}") })
    }
    fn note(&mut self, t: &str) {
        if !matches!(t, "Ok" | "Some" | "Err" | "Vec::new") {
            self.calls.push(t.to_string());
            self.shape.push(format!("call {t}"));
        }
    }

    fn kind(&self, e: &Expr) -> Kind {
        match e {
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "alloc" | "alloc_input" | "grab" | "ok_or" => Kind::Res,
                "map" | "and_then" | "map_err" => self.kind(&m.receiver),
                _ => Kind::Opt,
            },
            Expr::Call(c) => {
                let f = toks(&c.func).replace(' ', "");
                if self.lazy_params.contains(&f) || f.contains("alloc") { Kind::Res } else { Kind::Opt }
            }
            _ => Kind::Opt,
        }
    }

    fn opt_map(&mut self, m: &ExprMethodCall, wrap: bool) -> R<String> {
        let kind = self.kind(&m.receiver);
        let (some, none) = match kind { Kind::Opt => ("Some", "None => None".to_string()), Kind::Res => ("Ok", "Err(e__) => Err(e__)".to_string()) };
        let x = self.ex(&m.receiver)?;
        let c = match &m.args[0] {
            Expr::Closure(c) => c,
            f => {
                let g = self.ex(f)?;
                return Ok(format!("match {x} {{ {some}(x__) => {some}({g}(x__)), {none} }}"));
            }
        };
        if c.inputs.len() != 1 {
            return Err("closure".into());
        }
        let rt = toks(&m.receiver);
        let name = pat_name(&c.inputs[0]);
        let p = self.pat(&c.inputs[0])?;
        if let Some(n) = &name {
            self.mut_refs.remove(n);
            self.shared_refs.remove(n);
            if rt.ends_with(". as_mut ()") {
                self.mut_refs.insert(n.clone());
            }
            if rt.ends_with(". as_ref ()") {
                self.shared_refs.insert(n.clone());
            }
        }
        if has_try(&c.body) {
            return Err("`?` inside map".into());
        }
        self.shape.push("optmap".into());
        // a collect as the closure's value is one into a vector
        let b = match &*c.body {
            Expr::Block(bl) => self.block(&bl.block)?,
            b => self.ex(b)?,
        };
        Ok(if wrap { format!("match {x} {{ {some}({p}) => {{ {some}({b}) }}, {none} }}") } else { format!("match {x} {{ {some}({p}) => {{ {b} }}, {none} }}") })
    }

    fn method(&mut self, m: &ExprMethodCall) -> R<String> {
        let name = m.method.to_string();
        match name.as_str() {
            "namespace" => {
                let r = self.ex(&m.receiver)?;
                return Ok(format!("&mut *{r}"));
            }
            "enforce" => {
                if m.args.len() != 4 {
                    return Err("enforce".into());
                }
                let r = self.ex(&m.receiver)?;
                let k = self.enforces;
                self.enforces += 1;
                self.shape.push("enforce".into());
                let a = self.lc_closure(&m.args[1])?;
                let b = self.lc_closure(&m.args[2])?;
                let c = self.lc_closure(&m.args[3])?;
                let pre = self.hook(&format!("enforce {k} pre"));
                return Ok(format!("{{ let ea__ = {a};\nlet eb__ = {b};\nlet ec__ = {c};\n{pre}{r}.enforce(ea__, eb__, ec__) }}"));
            }
            "alloc" | "alloc_input" if m.args.len() == 2 && matches!(m.args[0], Expr::Closure(_)) => {
                let r = self.ex(&m.receiver)?;
                let c = closure(&m.args[1])?;
                let b = self.closure_result(c)?;
                self.shape.push(name.clone());
                let s = if name == "alloc" { "" } else { "_input" };
                return Ok(format!("(if {r}.wit() {{ match {b} {{ Ok(v__) => {r}.alloc{s}_w(v__), Err(e__) => Err(e__) }} }} else {{ {r}.alloc{s}_s() }})"));
            }
            "collect" => {
                let it = self.as_iter(&m.receiver)?.ok_or("collect of what is not an iterator")?;
                let tf = m.turbofish.as_ref().map(|t| toks(t)).unwrap_or_default();
                return if tf.contains("Option") {
                    self.collect(it, Coll::Opt)
                } else if tf.contains("Result") {
                    if self.cps { return Err("collect into a Result in a closure".into()); }
                    let v = self.collect(it, Coll::Res)?;
                    Ok(format!("Ok({v})"))
                } else {
                    self.collect(it, Coll::Vec)
                };
            }
            "fold" => {
                if let Some(it) = self.as_iter(&m.receiver)? {
                    return self.fold(it, &m.args[0], closure(&m.args[1])?);
                }
            }
            "all" => {
                if let Some(it) = self.as_iter(&m.receiver)? {
                    return self.all(it, closure(&m.args[0])?);
                }
            }
            "map" | "and_then" => {
                if self.as_iter(&m.receiver)?.is_none() {
                    return self.opt_map(m, name == "map");
                }
                return Err("iterator used as a value".into());
            }
            "unwrap_or_else" => {
                let x = self.ex(&m.receiver)?;
                let c = closure(&m.args[0])?;
                let b = self.ex(&c.body)?;
                return Ok(format!("match {x} {{ Some(x__) => x__, None => {b} }}"));
            }
            "filter" => {
                let x = self.ex(&m.receiver)?;
                let c = closure(&m.args[0])?;
                let p = self.pat(&c.inputs[0])?;
                let b = self.ex(&c.body)?;
                return Ok(format!("match {x} {{ Some(x__) => {{ let k__ = {{ let {p} = &x__; {b} }}; if k__ {{ Some(x__) }} else {{ None }} }}, None => None }}"));
            }
            "map_err" => return self.ex(&m.receiver),
            "clone" => {
                let x = self.ex(&m.receiver)?;
                return Ok(format!("{x}.cl()"));
            }
            "deref" => {
                let x = self.ex(&m.receiver)?;
                return Ok(x);
            }
            "borrow" if m.args.is_empty() => {
                let x = self.ex(&m.receiver)?;
                return Ok(x);
            }
            "cmp" => {
                let x = self.ex(&m.receiver)?;
                let y = self.ex(&m.args[0])?;
                return Ok(format!("TCmp::tcmp(&({x}), {y})"));
            }
            "last" => {
                let x = self.ex(&m.receiver)?;
                return Ok(format!("vec_last(&{x})"));
            }
            "extend" | "drain" | "splice" | "reverse" | "truncate" | "append" | "insert" | "push" | "pop" | "get" | "sort" | "take" => {
                let x = self.ex(&m.receiver)?;
                if name == "extend" {
                    let it = match self.as_iter(&m.args[0])? { Some(i) => i, None => self.into_it(&m.args[0])? };
                    return self.extend(&x, it);
                }
                if name == "drain" || name == "splice" {
                    let (lo, hi) = match &m.args[0] {
                        Expr::Range(r) => (self.ex(r.start.as_ref().ok_or("range")?)?, self.ex(r.end.as_ref().ok_or("range")?)?),
                        _ => return Err("drain".into()),
                    };
                    if name == "drain" {
                        return Ok(format!("{x}.vdrain({lo}, {hi})"));
                    }
                    let it = self.as_iter(&m.args[1])?.ok_or("splice")?;
                    let v = self.collect(it, Coll::Vec)?;
                    let k = self.fresh("s__");
                    return Ok(format!("{{ let {k} = {v}; {x}.vsplice({lo}, {hi}, {k}) }}"));
                }
                let is_own = matches!(name.as_str(), "append" | "insert" | "push" | "pop" | "take" | "get");
                let mut pre = String::new();
                let a = self.args(&m.args, &mut pre)?;
                if is_own {
                    if name == "append" || name == "insert" || name == "get" {
                        self.note(&format!(".{name}"));
                    }
                    return Ok(format!("{x}.{name}({})", a.join(", ")));
                }
                return Ok(format!("{x}.v{name}({})", a.join(", ")));
            }
            "add_assign" => return self.asg(m, "TAddA::tadda"),
            "sub_assign" => return self.asg(m, "TSubA::tsuba"),
            "mul_assign" => return self.asg(m, "TMulA::tmula"),
            _ => {}
        }
        if self.as_iter(&Expr::MethodCall(m.clone()))?.is_some() {
            return Err("iterator used as a value".into());
        }
        let x = self.ex(&m.receiver)?;
        let mut pre = String::new();
        let a = self.args(&m.args, &mut pre)?;
        self.note(&format!(".{name}"));
        let out = format!("{x}.{name}({})", a.join(", "));
        Ok(if pre.is_empty() { out } else { format!("{{ {pre}{out} }}") })
    }

    fn asg(&mut self, m: &ExprMethodCall, f: &str) -> R<String> {
        let x = self.ex(&m.receiver)?;
        let y = self.ex(&m.args[0])?;
        let is_ref = matches!(&*m.receiver, Expr::Path(p) if self.mut_refs.contains(&toks(p)));
        Ok(if is_ref { format!("{f}(&mut *{x}, {y})") } else { format!("{f}(&mut {x}, {y})") })
    }

    // ---- iterators ----

    fn into_it(&mut self, e: &Expr) -> R<It> {
        if let Some(i) = self.as_iter(e)? {
            return Ok(i);
        }
        Ok(match e {
            Expr::Reference(r) => {
                let x = self.ex(&r.expr)?;
                if r.mutability.is_some() { It::Mut(x) } else { It::Ref(x) }
            }
            Expr::Path(p) if self.mut_refs.contains(&toks(p)) => It::Mut(format!("(*{})", toks(p))),
            Expr::Path(p) if self.shared_refs.contains(&toks(p)) => It::Ref(format!("(*{})", toks(p))),
            e => It::Own(self.ex(e)?),
        })
    }

    fn as_iter(&mut self, e: &Expr) -> R<Option<It>> {
        Ok(match e {
            Expr::Paren(p) => return self.as_iter(&p.expr),
            Expr::Range(r) => {
                let lo = self.ex(r.start.as_ref().ok_or("range")?)?;
                let hi = self.ex(r.end.as_ref().ok_or("range")?)?;
                let hi = if matches!(r.limits, RangeLimits::Closed(_)) { format!("TAdd::tadd({hi}, 1)") } else { hi };
                Some(It::Range(lo, hi))
            }
            Expr::Path(p) => self.iters.get(&toks(p)).cloned(),
            Expr::Call(c) => {
                let f = toks(&c.func).replace(' ', "");
                if f.ends_with("iter::repeat") {
                    Some(It::Repeat(self.ex(&c.args[0])?))
                } else if f.ends_with("iter::repeat_with") {
                    let cl = closure(&c.args[0])?;
                    Some(It::Repeat(self.ex(&cl.body)?))
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" if m.args.is_empty() => Some(It::Ref(self.ex(&m.receiver)?)),
                    "iter_mut" => Some(It::Mut(self.ex(&m.receiver)?)),
                    "into_iter" => {
                        if let Some(i) = self.as_iter(&m.receiver)? {
                            return Ok(Some(i));
                        }
                        Some(It::Own(self.ex(&m.receiver)?))
                    }
                    "map" | "enumerate" | "zip" | "skip" | "take" | "rev" | "chain" | "cloned" | "copied" => {
                        let base = match self.as_iter(&m.receiver)? {
                            Some(b) => Box::new(b),
                            None => return Ok(None),
                        };
                        Some(match n.as_str() {
                            "map" => It::Map(base, Box::new(closure(&m.args[0])?.clone())),
                            "enumerate" => It::Enum(base),
                            "zip" => It::Zip(base, Box::new(self.into_it(&m.args[0])?)),
                            "chain" => It::Chain(base, Box::new(self.into_it(&m.args[0])?)),
                            "skip" => It::Skip(base, self.ex(&m.args[0])?),
                            "take" => It::Take(base, self.ex(&m.args[0])?),
                            "rev" => It::Rev(base),
                            _ => It::Cloned(base),
                        })
                    }
                    _ => None,
                }
            }
            _ => None,
        })
    }

    /// Emits the setup of an iterator; returns its length and what makes item number `i`.
    fn it_setup(&mut self, it: &It, pre: &mut String) -> R<(Option<String>, It)> {
        Ok(match it {
            It::Range(a, b) => {
                let (x, y) = (self.lfresh("lo__"), self.lfresh("hi__"));
                // the literal's type follows the other bound
                pre.push_str(&format!("let {x}: usize = {a}; let {y}: usize = {b};\n"));
                (Some(format!("span__({x}, {y})")), It::Range(x, y))
            }
            It::Ref(e) => {
                let s = self.lfresh("s__");
                pre.push_str(&format!("let {s} = vref__(&{e});\n"));
                (Some(format!("{s}.len()")), It::Ref(s))
            }
            It::Mut(e) => (Some(format!("{e}.len()")), It::Mut(e.clone())),
            It::Own(e) => {
                let s = self.lfresh("s__");
                pre.push_str(&format!("let {s} = {e};\n"));
                (Some(format!("{s}.len()")), It::Own(s))
            }
            It::Map(b, c) => {
                let (l, b) = self.it_setup(b, pre)?;
                (l, It::Map(Box::new(b), c.clone()))
            }
            It::Enum(b) => {
                let (l, b) = self.it_setup(b, pre)?;
                (l, It::Enum(Box::new(b)))
            }
            It::Cloned(b) => {
                let (l, b) = self.it_setup(b, pre)?;
                (l, It::Cloned(Box::new(b)))
            }
            It::Rev(b) => {
                let (l, b) = self.it_setup(b, pre)?;
                let l = l.ok_or("rev of an endless iterator")?;
                let k = self.lfresh("n__");
                pre.push_str(&format!("let {k} = {l};\n"));
                (Some(k.clone()), It::Skip(Box::new(It::Rev(Box::new(b))), k))
            }
            It::Zip(a, b) => {
                let (l, a) = self.it_setup(a, pre)?;
                let (m, b) = self.it_setup(b, pre)?;
                let k = match (l, m) {
                    (Some(l), Some(m)) => Some(format!("TMax::tmin({l}, {m})")),
                    (l, m) => l.or(m),
                };
                (k, It::Zip(Box::new(a), Box::new(b)))
            }
            It::Skip(b, e) => {
                let (l, b) = self.it_setup(b, pre)?;
                let k = self.lfresh("k__");
                pre.push_str(&format!("let {k}: usize = {e};\n"));
                (l.map(|l| format!("span__({k}, {l})")), It::Skip(Box::new(b), k))
            }
            It::Take(b, e) => {
                let (l, b) = self.it_setup(b, pre)?;
                let k = self.lfresh("k__");
                pre.push_str(&format!("let {k}: usize = {e};\n"));
                (Some(match l { Some(l) => format!("TMax::tmin({k}, {l})"), None => k }), b)
            }
            It::Chain(a, b) => {
                let (l, a) = self.it_setup(a, pre)?;
                let (m, b) = self.it_setup(b, pre)?;
                let (l, m) = (l.ok_or("chain")?, m.ok_or("chain")?);
                let k = self.lfresh("n__");
                pre.push_str(&format!("let {k} = {l};\n"));
                (Some(format!("TAdd::tadd({k}, {m})")), It::Chain(Box::new(It::Skip(Box::new(a), k)), Box::new(b)))
            }
            It::Repeat(e) => (None, It::Repeat(e.clone())),
        })
    }

    fn item(&mut self, it: &It, i: &str) -> R<String> {
        Ok(match it {
            It::Range(a, _) => format!("TAdd::tadd({a}, {i})"),
            It::Ref(s) => format!("&{s}[{i}]"),
            It::Mut(e) => format!("&mut {e}[{i}]"),
            It::Own(s) => format!("mv__(&{s}[{i}])"),
            It::Map(b, c) => {
                let x = self.item(b, i)?;
                let saved = self.iters.clone();
                let p = self.pat(&c.inputs[0])?;
                let body = if self.cps {
                    if has_try(&c.body) {
                        return Err("`?` in an iterator of a closure".into());
                    }
                    self.ex(&c.body)?
                } else {
                    match &*c.body {
                        Expr::Block(b) => self.block(&b.block)?,
                        b => self.ex(b)?,
                    }
                };
                self.iters = saved;
                format!("{{ let {p} = {x}; {body} }}")
            }
            It::Enum(b) => format!("({i}, {})", self.item(b, i)?),
            It::Zip(a, b) => format!("({}, {})", self.item(a, i)?, self.item(b, i)?),
            It::Skip(b, k) => match &**b {
                It::Rev(b) => {
                    let j = format!("TSub::tsub(TSub::tsub({k}, 1), {i})");
                    self.item(b, &j)?
                }
                b => self.item(b, &format!("TAdd::tadd({k}, {i})"))?,
            },
            It::Rev(_) | It::Take(..) => return Err("iterator".into()),
            It::Chain(a, b) => match &**a {
                It::Skip(a, k) => {
                    let x = self.item(a, i)?;
                    let y = self.item(b, &format!("TSub::tsub({i}, {k})"))?;
                    format!("if {i} < {k} {{ {x} }} else {{ {y} }}")
                }
                _ => return Err("chain".into()),
            },
            It::Cloned(b) => format!("({}).cl()", self.item(b, i)?),
            It::Repeat(e) => e.clone(),
        })
    }

    /// A loop over the items; `mk` makes the body from the text of an item.
    fn loop_over(&mut self, it: It, more: &str, mk: &mut dyn FnMut(&mut Self, String, &str) -> R<String>) -> R<(String, String)> {
        let k = self.loops;
        self.loops += 1;
        self.shape.push("loop".into());
        let mut pre = String::new();
        let (len, it) = self.it_setup(&it, &mut pre)?;
        let len = len.ok_or("endless loop")?;
        let (i, n) = (format!("i{k}"), format!("n{k}"));
        let before = self.hook(&format!("loop {k} before"));
        pre.push_str(&format!("let {n}: usize = {len}; let mut {i}: usize = 0;{before}\n"));
        let inv = self.hook(&format!("loop {k} inv"));
        let begin = self.hook(&format!("loop {k} begin"));
        let x = self.item(&it, &i)?;
        let body = mk(self, x, &i)?;
        let end = self.hook(&format!("loop {k} end"));
        let after = self.hook(&format!("loop {k} after"));
        Ok((
            pre,
            format!("while {i} < {n}{more}\n  invariant {i} <= {n},\n{inv}\n  decreases {n} - {i},\n{{\n{begin}{body}\n{end}{i} = {i} + 1;\n}}{after}\n"),
        ))
    }

    fn for_loop(&mut self, f: &ExprForLoop, errvar: Option<&str>) -> R<(String, String)> {
        let it = self.into_it(&f.expr)?;
        let more = match errvar { Some(k) => format!(" && {k}.is_none()"), None => String::new() };
        let more2 = more.clone();
        let saved = self.iters.clone();
        let pat_names = toks(&f.pat);
        let _ = pat_names;
        let r = self.loop_over(it, &more, &mut |s, x, _| {
            let p = s.pat(&f.pat)?;
            if x.starts_with("&mut ") {
                if let Some(n) = pat_name(&f.pat) {
                    s.mut_refs.insert(n);
                }
            }
            let b = if let Some(k) = errvar {
                let save = std::mem::take(&mut s.pending);
                let old = s.err.clone();
                s.err = format!("Err(e__) => {{ {k} = Some(e__); }}");
                let b = s.cps_stmts(&f.body.stmts, &Tail::Unit)?;
                s.err = old;
                s.pending = save;
                b
            } else {
                if toks(&f.body).split_whitespace().any(|w| w == "break" || w == "continue") {
                    return Err("break or continue".into());
                }
                s.stmts(&f.body.stmts, false, false)?
            };
            Ok(format!("let {p} = {x};\n{b}"))
        })?;
        let _ = more2;
        self.iters = saved;
        Ok(r)
    }

    fn collect(&mut self, it: It, c: Coll) -> R<String> {
        let v = self.fresh("c__");
        let none = format!("{v}none");
        let more = if c == Coll::Opt { format!(" && !{none}") } else { String::new() };
        // for invariants: the name by loop ordinal
        let k = self.loops;
        let v = format!("c{k}");
        let _ = &v;
        let (pre, body) = self.loop_over(it, &more.replace(&none, &format!("none{k}")), &mut |_s, x, _| {
            Ok(match c {
                Coll::Vec => format!("let x__ = {x}; {v}.push(x__);"),
                Coll::Res => format!("let x__ = {}; {v}.push(x__);", try_of(&x)),
                Coll::Opt => format!("match {x} {{ Some(x__) => {{ {v}.push(x__); }}, None => {{ none{k} = true; }} }}"),
            })
        })?;
        Ok(match c {
            Coll::Opt => format!("{{ let mut {v} = Vec::new(); let mut none{k} = false;\n{pre}{body}\nif none{k} {{ None }} else {{ Some({v}) }} }}"),
            _ => format!("{{ let mut {v} = Vec::new();\n{pre}{body}\n{v} }}"),
        })
    }
    fn extend(&mut self, x: &str, it: It) -> R<String> {
        let (pre, body) = self.loop_over(it, "", &mut |_s, y, _| Ok(format!("let x__ = {y}; {x}.push(x__);")))?;
        Ok(format!("{{ {pre}{body} }}"))
    }
    fn fold(&mut self, it: It, init: &Expr, c: &ExprClosure) -> R<String> {
        let x0 = self.ex(init)?;
        let k = self.loops;
        let v = format!("f{k}");
        let saved = self.iters.clone();
        let (pre, body) = self.loop_over(it, "", &mut |s, x, _| {
            let pa = s.pat(&c.inputs[0])?;
            let px = s.pat(&c.inputs[1])?;
            let b = match &*c.body {
                Expr::Block(b) => s.block(&b.block)?,
                b => s.ex(b)?,
            };
            Ok(format!("{v} = {{ let {px} = {x}; let {pa} = {v}; {b} }};"))
        })?;
        self.iters = saved;
        Ok(format!("{{ let mut {v} = {x0};\n{pre}{body}\n{v} }}"))
    }
    fn all(&mut self, it: It, c: &ExprClosure) -> R<String> {
        let k = self.loops;
        let v = format!("all{k}");
        let (pre, body) = self.loop_over(it, "", &mut |s, x, _| {
            let p = s.pat(&c.inputs[0])?;
            let b = s.ex(&c.body)?;
            Ok(format!("if !{{ let {p} = {x}; {b} }} {{ {v} = false; }}"))
        })?;
        Ok(format!("{{ let mut {v} = true;\n{pre}{body}\n{v} }}"))
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Opt,
    Res,
}
#[derive(PartialEq, Clone, Copy)]
enum Coll {
    Vec,
    Opt,
    Res,
}

/// `x?`, without the round trip when x is literally `{ ..; Ok(y) }`.
fn try_of(x: &str) -> String {
    // the item is `{ let p = i; { ...\nOk(y)\n} }` or `{ let p = i; e }`
    let t = x.trim_end();
    if let Some(pos) = t.rfind("\nOk(") {
        // everything after the tail must be closing braces
        let rest = &t[pos + 4..];
        let mut depth = 1;
        let mut end = None;
        for (j, c) in rest.char_indices() {
            match c {
                '(' => depth += 1,
                ')' => {
                    depth -= 1;
                    if depth == 0 {
                        end = Some(j);
                        break;
                    }
                }
                _ => {}
            }
        }
        if let Some(e) = end {
            if rest[e + 1..].chars().all(|c| c.is_whitespace() || c == '}') {
                return format!("{}\n({}){}", &t[..pos], &rest[..e], &rest[e + 1..]);
            }
        }
    }
    format!("{x}?")
}

fn closure(e: &Expr) -> R<&ExprClosure> {
    match e {
        Expr::Closure(c) => Ok(c),
        e => Err(format!("not a closure: {}", toks(e))),
    }
}
fn pat_name(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_name(&t.pat),
        _ => None,
    }
}
fn pat_type(p: &Pat) -> Option<&Type> {
    match p {
        Pat::Type(t) => Some(&t.ty),
        _ => None,
    }
}
fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Try(t) => call_name(&t.expr),
        Expr::MethodCall(m) if m.method == "unwrap" => call_name(&m.receiver),
        Expr::MethodCall(m) => Some(m.method.to_string()),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()),
            _ => None,
        },
        _ => None,
    }
}
fn const_int(e: &Expr) -> Option<String> {
    fn v(e: &Expr) -> Option<i128> {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) if i.suffix().is_empty() => i.base10_parse().ok(),
                _ => None,
            },
            Expr::Paren(p) => v(&p.expr),
            Expr::Binary(b) => {
                let (x, y) = (v(&b.left)?, v(&b.right)?);
                match b.op {
                    BinOp::Add(_) => Some(x + y),
                    BinOp::Sub(_) if x >= y => Some(x - y),
                    BinOp::Mul(_) => Some(x * y),
                    BinOp::Div(_) if y != 0 => Some(x / y),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    match e {
        Expr::Binary(_) => v(e).map(|x| x.to_string()),
        _ => None,
    }
}
