//! Lowers a function that works on a cell shared through `Rc<RefCell<_>>`.  The body stays as it is
//! written, except that
//! * the cells live in a heap `h__` that is passed along (`k__` counts the initialisers run):
//!   `Rc::new(RefCell::new(e))`, `c.borrow_mut()`, `c.borrow()` are calls on it,
//! * `Ref::map(c.borrow(), |x| e)` is a read whose guard outlives the function,
//! * calling a local function value is `run__`, `mem::replace` is `mem_replace`, `unreachable!` and
//!   `panic!` must be unreachable,
//! * `ref` in patterns is left to the default binding mode.
use crate::lower::R;
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct Rw {
    err: Option<String>,
    shape: Vec<String>,
    calls: Vec<String>,
    locals: Vec<String>,
    methods: Vec<String>,
}
fn flat(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
fn is_new(e: &Expr, what: &str) -> bool {
    matches!(e, Expr::Call(c) if { let f = flat(&c.func); f == format!("{what}::new") || f.ends_with(&format!("::{what}::new")) })
}
impl Rw {
    fn note(&mut self, t: &str) {
        self.shape.push(t.to_string());
    }
}
impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // the guard of a mutable borrow lives to the end of its block
        let mut guards = vec![];
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if matches!(&*init.expr, Expr::MethodCall(m) if m.method == "borrow_mut") {
                        guards.push(i.ident.clone());
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
        if !guards.is_empty() {
            let tail = match b.stmts.last() {
                Some(Stmt::Expr(e, None)) => {
                    let e = e.clone();
                    b.stmts.pop();
                    Some(e)
                }
                _ => None,
            };
            if let Some(e) = &tail {
                b.stmts.push(parse_quote!(let r__ = #e;));
            }
            for g in guards.iter().rev() {
                b.stmts.push(parse_quote!(guard__(&#g);));
            }
            if tail.is_some() {
                b.stmts.push(Stmt::Expr(parse_quote!(r__), None));
            }
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if i.subpat.is_none() {
                i.by_ref = None;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Ident(i), Some(init)) = (&mut l.pat, &l.init) {
            if flat(&init.expr).starts_with("h__.borrow_mut__") {
                i.mutability = None;
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::If(_) => self.note("if"),
            Expr::Match(_) => self.note("match"),
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => self.note("loop"),
            Expr::Unsafe(_) => self.err = Some("unsafe code".into()),
            _ => {}
        }
        if is_new(e, "Rc") {
            if let Expr::Call(c) = e {
                if c.args.len() == 1 && is_new(&c.args[0], "RefCell") {
                    if let Expr::Call(i) = &c.args[0] {
                        let mut x = i.args[0].clone();
                        self.note("new cell");
                        self.visit_expr_mut(&mut x);
                        *e = parse_quote!(h__.new_cell__(#x));
                        return;
                    }
                }
            }
            self.err = Some("a shared cell that is not Rc<RefCell<_>>".into());
            return;
        }
        if let Expr::Call(c) = e {
            let f = flat(&c.func);
            if f == "Ref::map" || f.ends_with("::Ref::map") {
                if let (Some(Expr::MethodCall(m)), Some(Expr::Closure(k))) = (c.args.first(), c.args.get(1)) {
                    if m.method == "borrow" && m.args.is_empty() && k.inputs.len() == 1 {
                        let (mut r, mut b, p) = ((*m.receiver).clone(), (*k.body).clone(), k.inputs[0].clone());
                        self.note("read");
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut b);
                        *e = parse_quote!({ let #p = h__.reader__(&#r); #b });
                        return;
                    }
                }
                self.err = Some("Ref::map".into());
                return;
            }
            if f == "std::mem::replace" || f == "mem::replace" || f == "core::mem::replace" {
                self.note("replace");
                c.func = parse_quote!(mem_replace);
            } else if f == "drop" || f.ends_with("::drop") || f.ends_with("::forget") {
                self.err = Some(format!("call of {f}"));
            } else if c.args.is_empty() && !f.contains("::") {
                self.note("run");
                let g = c.func.clone();
                *e = parse_quote!(run__(#g, k__));
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let own = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
            self.note(&format!("call .{n}"));
            if !own && m.args.is_empty() && (n == "borrow" || n == "borrow_mut") {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                *e = if n == "borrow" { parse_quote!((*h__.peek__(&#r))) } else { parse_quote!(h__.borrow_mut__(&#r)) };
                if n == "borrow" {
                    // a guard dropped at the end of the statement
                    *e = parse_quote!(h__.peek__(&#r));
                }
                return;
            }
            if own && self.methods.contains(&n) {
                self.calls.push(format!("LazyCell::{n}"));
                visit_mut::visit_expr_method_call_mut(self, m);
                m.args.push(parse_quote!(h__));
                m.args.push(parse_quote!(k__));
                return;
            }
            if own {
                self.err = Some(format!("method {n} has no contract"));
                return;
            }
        }
        if let Expr::Macro(m) = e {
            let n = flat(&m.mac.path);
            if n == "unreachable" || n == "panic" {
                self.note("unreachable");
                *e = parse_quote!(unreachable__());
                return;
            }
            self.err = Some(format!("macro {n}"));
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let n = flat(&m.mac.path);
            if n == "unreachable" || n == "panic" {
                self.note("unreachable");
                let semi = m.semi_token;
                *s = Stmt::Expr(parse_quote!(unreachable__()), semi);
            } else {
                self.err = Some(format!("macro {n}"));
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

pub struct Lowered {
    pub params: String,
    pub ret: String,
    pub body: String,
    pub shape: Vec<String>,
    pub calls: Vec<String>,
}
fn ty(t: &Type) -> R<String> {
    let s = flat(t);
    Ok(match s.as_str() {
        "T" => "T".into(),
        "F" => "F".into(),
        "Self" => "LazyCell<T, F>".into(),
        "Ref<T>" | "Ref<'_,T>" => "&T".into(),
        "LazyCell<T,F>" => s,
        _ => return Err(format!("type {s}")),
    })
}
/// the methods with a contract
pub fn function(sig: &Signature, body: &Block, methods: &[String], _assoc: &HashMap<String, Type>) -> R<Lowered> {
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_none() => params.push("&self".to_string()),
            FnArg::Receiver(_) => return Err("receiver".into()),
            FnArg::Typed(p) => params.push(format!("{}: {}", flat(&p.pat), ty(&p.ty)?)),
        }
    }
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => ty(t)?,
    };
    // a returned reference is into the heap
    let (h, ret) = if ret == "&T" { ("&'a mut Heap<LazyCellInner<T, F>>", "&'a T".to_string()) } else { ("&mut Heap<LazyCellInner<T, F>>", ret) };
    params.push(format!("h__: {h}"));
    params.push("k__: &mut Runs".into());
    let mut b = body.clone();
    let mut rw = Rw { methods: methods.to_vec(), ..Default::default() };
    rw.visit_block_mut(&mut b);
    if let Some(e) = rw.err {
        return Err(e);
    }
    let _ = &rw.locals;
    Ok(Lowered { params: params.join(", "), ret, body: format!("{}\n", quote!(#b)), shape: rw.shape, calls: rw.calls })
}

/// `Rc<RefCell<X>>` as the type of a field
pub fn field(t: &Type) -> R<String> {
    let s = flat(t);
    for p in ["Rc<RefCell<LazyCellInner<T,F>>>", "std::rc::Rc<std::cell::RefCell<LazyCellInner<T,F>>>"] {
        if s == p {
            return Ok("RcCell<LazyCellInner<T, F>>".into());
        }
    }
    Err(format!("type {s}"))
}
