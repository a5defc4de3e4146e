//! A function of the file that takes closures is replaced, where it is called with closures written
//! in place, by its body, and the calls of the closures by theirs. A `?` in the replaced code would
//! leave a function that is gone: its failing case becomes an obligation that it never happens.
use std::collections::{BTreeMap, BTreeSet};
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Fun {
    params: Vec<(Ident, bool)>, // name, by &mut reference
    closures: BTreeSet<String>,
    block: Block,
}

fn is_fn_bound<'a>(b: impl Iterator<Item = &'a TypeParamBound>) -> bool {
    let mut b = b;
    b.any(|b| match b {
        TypeParamBound::Trait(t) => matches!(t.path.segments.last().unwrap().ident.to_string().as_str(), "Fn" | "FnMut" | "FnOnce"),
        _ => false,
    })
}

fn fun(f: &ItemFn) -> Option<Fun> {
    let mut gen: BTreeSet<String> = BTreeSet::new();
    for p in &f.sig.generics.params {
        if let GenericParam::Type(t) = p {
            if is_fn_bound(t.bounds.iter()) {
                gen.insert(t.ident.to_string());
            }
        }
    }
    if let Some(w) = &f.sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if is_fn_bound(t.bounds.iter()) {
                    gen.insert(t.bounded_ty.to_token_stream().to_string());
                }
            }
        }
    }
    let mut params = vec![];
    let mut closures = BTreeSet::new();
    for a in &f.sig.inputs {
        match a {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => {
                    let ty = match &*t.ty {
                        Type::Reference(r) => &*r.elem,
                        x => x,
                    };
                    let c = match ty {
                        Type::ImplTrait(x) => is_fn_bound(x.bounds.iter()),
                        Type::Path(p) => gen.contains(&p.to_token_stream().to_string()),
                        _ => false,
                    };
                    if c {
                        closures.insert(i.ident.to_string());
                    }
                    params.push((i.ident.clone(), matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some())));
                }
                _ => return None,
            },
            _ => return None,
        }
    }
    if closures.is_empty() {
        return None;
    }
    Some(Fun { params, closures, block: (*f.block).clone() })
}

fn words(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in t {
        match t {
            proc_macro2::TokenTree::Group(g) => words(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            _ => {}
        }
    }
}

/// the failing case of each `?` is shown not to happen; false where the code returns on its own
struct NoTry(bool);
impl VisitMut for NoTry {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Try(t) => {
                let x = &t.expr;
                *e = parse_quote!((match vres(#x) { Ok(q__) => q__, Err(_) => vunreachable() }));
            }
            Expr::Return(_) => self.0 = false,
            _ => {}
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

struct Inline<'a>(&'a BTreeMap<String, Fun>);

struct CallClosures {
    bodies: BTreeMap<String, (Vec<Pat>, Expr)>,
    by_ref: BTreeSet<String>,
    ok: bool,
}
impl VisitMut for CallClosures {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some((ps, b)) = p.path.get_ident().and_then(|i| self.bodies.get(&i.to_string())) {
                    if ps.len() != c.args.len() {
                        self.ok = false;
                        return;
                    }
                    let mut lets: Vec<Stmt> = vec![];
                    for (p, a) in ps.iter().zip(&c.args) {
                        let (p, a) = (p.to_token_stream(), a);
                        if p.to_string() == a.to_token_stream().to_string() {
                            continue;
                        }
                        if self.by_ref.contains(&a.to_token_stream().to_string()) {
                            lets.push(parse_quote!(let #p = &mut *#a;));
                        } else {
                            lets.push(parse_quote!(let #p = #a;));
                        }
                    }
                    *e = parse_quote!({ #(#lets)* #b });
                }
            }
        }
    }
}

impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let c = match e {
            Expr::Call(c) => c.clone(),
            _ => return,
        };
        let f = match &*c.func {
            Expr::Path(p) => match p.path.segments.last().and_then(|i| self.0.get(&i.ident.to_string())) {
                Some(f) => f.clone(),
                None => return,
            },
            _ => return,
        };
        if f.params.len() != c.args.len() {
            return;
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut bodies = BTreeMap::new();
        let mut own: BTreeSet<String> = BTreeSet::new();
        let mut by_ref = BTreeSet::new();
        words(f.block.to_token_stream(), &mut own);
        let mut safe: BTreeSet<String> = BTreeSet::new();
        for ((p, r), a) in f.params.iter().zip(&c.args) {
            let n = p.to_string();
            if *r {
                by_ref.insert(n.clone());
            }
            if f.closures.contains(&n) {
                let a = match a {
                    Expr::Reference(r) => &*r.expr,
                    a => a,
                };
                match a {
                    Expr::Closure(k) => {
                        let mut b = (*k.body).clone();
                        let mut nt = NoTry(true);
                        nt.visit_expr_mut(&mut b);
                        if !nt.0 {
                            return;
                        }
                        let ps = k.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect();
                        bodies.insert(n, (ps, b));
                    }
                    _ => return,
                }
            } else if a.to_token_stream().to_string() == n {
                safe.insert(n);
            } else if *r {
                lets.push(parse_quote!(let #p = &mut *#a;));
            } else {
                lets.push(parse_quote!(let #p = #a;));
            }
        }
        // no name of the function hides one that a closure uses
        let mut locals: BTreeSet<String> = f.params.iter().map(|p| p.0.to_string()).filter(|p| !safe.contains(p)).collect();
        struct Pats<'b>(&'b mut BTreeSet<String>);
        impl<'b, 'c> syn::visit::Visit<'c> for Pats<'b> {
            fn visit_pat_ident(&mut self, i: &'c PatIdent) {
                self.0.insert(i.ident.to_string());
            }
        }
        syn::visit::Visit::visit_block(&mut Pats(&mut locals), &f.block);
        for (ps, b) in bodies.values() {
            let mut used = BTreeSet::new();
            words(b.to_token_stream(), &mut used);
            for p in ps {
                let mut v = vec![];
                crate::xform::collect_pat(p, &mut v);
                for x in v {
                    used.remove(&x);
                }
            }
            if used.intersection(&locals).next().is_some() {
                return;
            }
        }
        let mut b = f.block.clone();
        let mut nt = NoTry(true);
        nt.visit_block_mut(&mut b);
        if !nt.0 {
            return;
        }
        let mut cc = CallClosures { bodies, by_ref, ok: true };
        cc.visit_block_mut(&mut b);
        if !cc.ok {
            return;
        }
        let st = b.stmts;
        *e = parse_quote!({ #(#lets)* #(#st)* });
    }
}

pub fn inline_closures(items: &mut Vec<Item>) {
    let mut m = BTreeMap::new();
    for it in items.iter() {
        if let Item::Fn(f) = it {
            if let Some(x) = fun(f) {
                m.insert(f.sig.ident.to_string(), x);
            }
        }
    }
    if m.is_empty() {
        return;
    }
    let mut v = Inline(&m);
    for it in items.iter_mut() {
        v.visit_item_mut(it);
    }
}

/// one way of writing for what can be written in several
struct Norm;
impl Norm {
    fn body(&self, b: &mut Block) {
        loop {
            match &mut b.stmts[..] {
                // { { .. } }
                [Stmt::Expr(Expr::Block(x), None)] if x.label.is_none() && x.attrs.is_empty() => *b = x.block.clone(),
                // return x; at the end
                [.., Stmt::Expr(Expr::Return(r), _)] if r.expr.is_some() => {
                    let x = (**r.expr.as_ref().unwrap()).clone();
                    b.stmts.pop();
                    b.stmts.push(Stmt::Expr(x, None));
                }
                _ => return,
            }
        }
    }
}
impl VisitMut for Norm {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        visit_mut::visit_item_fn_mut(self, f);
        self.body(&mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.body(&mut f.block);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let same = |a: &Expr, b: &Expr| a.to_token_stream().to_string() == b.to_token_stream().to_string();
        match e {
            // x = x + y
            Expr::Assign(a) => {
                if let Expr::Binary(b) = &*a.right {
                    let (l, r) = (&b.left, &b.right);
                    if matches!(&**l, Expr::Path(_) | Expr::Field(_)) && same(&a.left, l) {
                        match b.op {
                            BinOp::Add(_) => *e = parse_quote!(#l += #r),
                            BinOp::Sub(_) => *e = parse_quote!(#l -= #r),
                            _ => {}
                        }
                    }
                }
            }
            // Clone::clone(&x)
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "") == "Clone::clone" => {
                let x = match &c.args[0] {
                    Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
                    x => x.clone(),
                };
                if matches!(x, Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Index(_) | Expr::Paren(_) | Expr::Call(_)) {
                    *e = parse_quote!(#x.clone());
                }
            }
            _ => {}
        }
    }
}
pub fn normalize(items: &mut Vec<Item>) {
    for it in items.iter_mut() {
        Norm.visit_item_mut(it);
    }
}
