//! Extracts the functions under contract from the crate's current source into one Verus crate.
//! What it changes and what it drops is listed in DESIGN.md ("The extractor").
mod contracts;
mod fmt;
mod print;
mod inline;
mod lalrpop;
mod xform;

use contracts::{Entry, FnContract, Module};
use print::Clauses;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;
use xform::{map_type, RetKind, X};

#[derive(Clone)]
struct SrcFn {
    attrs_inline: bool,
    sig: Signature,
    block: Block,
    self_ty: Option<Type>,
    impl_generics: Generics,
    trait_path: Option<String>,
}

#[derive(Default)]
struct Src {
    impls: Vec<(String, String, String)>,
    /// contracts that come with the source (LALRPOP grammars), and their order
    auto: BTreeMap<String, String>,
    auto_order: Vec<String>,
    alias: lalrpop::Alias,
    fns: BTreeMap<String, SrcFn>,
    items: BTreeMap<String, Item>,
    consts: BTreeMap<String, (String, ImplItemConst)>,
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        t => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]"
    })
}

fn nested(prefix: &str, f: &SrcFn, out: &mut Src) {
    struct V<'a>(&'a str, &'a mut Src, Generics);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_item_fn(&mut self, i: &'b ItemFn) {
            let key = format!("{}/{}", self.0, i.sig.ident);
            self.1.fns.insert(
                key,
                SrcFn {
                    attrs_inline: false,
                    sig: i.sig.clone(),
                    block: (*i.block).clone(),
                    self_ty: None,
                    impl_generics: Generics::default(),
                    trait_path: None,
                },
            );
        }
    }
    let mut v = V(prefix, out, f.impl_generics.clone());
    syn::visit::Visit::visit_block(&mut v, &f.block);
}

/// `spec` is a path, optionally followed by ` rename A=B ...`: names of types given another name,
/// because every module of the verified crate sees the names of all others.
fn load(root: &std::path::Path, spec: &str) -> std::result::Result<Src, String> {
    let (path, ren) = match spec.split_once(" rename ") {
        Some((a, b)) => (a.trim(), b),
        None => (spec, ""),
    };
    let path = root.join(path);
    let mut text = std::fs::read_to_string(&path).map_err(|e| format!("{}: {e}", path.display()))?;
    let mut s = Src::default();
    if path.extension().map_or(false, |e| e == "lalrpop") {
        let (t, auto, order, alias) = lalrpop::convert(&text).map_err(|e| format!("{}: {e}", path.display()))?;
        (text, s.auto, s.auto_order, s.alias) = (t, auto, order, alias);
    }
    let file = if ren.is_empty() {
        parse_file(&text).map_err(|e| format!("{}: {e}", path.display()))?
    } else {
        // a name that a path was replaced by is not renamed again
        let m = ren
            .split_whitespace()
            .filter_map(|x| x.split_once('='))
            .flat_map(|(a, b)| if a.contains("::") { vec![(format!("PR__{b}"), b.to_string())] } else { vec![(a.to_string(), b.to_string())] })
            .collect();
        let mut t: proc_macro2::TokenStream = text.parse().map_err(|e| format!("{}: {e}", path.display()))?;
        // `a::B=C`: a path
        for (a, b) in ren.split_whitespace().filter_map(|x| x.split_once('=')) {
            if let Some((m, n)) = a.split_once("::") {
                t = repath(t, m, n, &format!("PR__{b}"));
            }
        }
        parse2(Rename(m).toks(t)).map_err(|e| format!("{}: {e}", path.display()))?
    };
    // the items of inline modules are taken with the others
    let mut items = vec![];
    fn flat(v: Vec<Item>, out: &mut Vec<Item>) {
        for it in v {
            match it {
                Item::Mod(m) if !is_test(&m.attrs) => flat(m.content.map_or(vec![], |c| c.1), out),
                it => out.push(it),
            }
        }
    }
    flat(file.items, &mut items);
    inline::normalize(&mut items);
    inline::inline_closures(&mut items);
    for it in items {
        match &it {
            Item::Fn(f) if !is_test(&f.attrs) => {
                let key = f.sig.ident.to_string();
                let sf = SrcFn {
                    attrs_inline: false,
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    self_ty: None,
                    impl_generics: Generics::default(),
                    trait_path: None,
                };
                nested(&key, &sf, &mut s);
                s.fns.insert(key, sf);
            }
            Item::Struct(x) => {
                s.items.insert(x.ident.to_string(), it.clone());
            }
            Item::Enum(x) => {
                s.items.insert(x.ident.to_string(), it.clone());
            }
            Item::Type(x) => {
                s.items.insert(x.ident.to_string(), it.clone());
            }
            Item::Const(x) => {
                s.items.insert(x.ident.to_string(), it.clone());
            }
            Item::Impl(im) => {
                let tn = ty_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| {
                    t.1.segments.last().unwrap().to_token_stream().to_string().replace(' ', "")
                });
                if let Some(t) = &tr {
                    s.impls.push((tn.clone(), t.clone(), im.items.iter().map(|i| i.to_token_stream().to_string()).collect::<Vec<_>>().join(" ")));
                }
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            let name = f.sig.ident.to_string();
                            let key = match &tr {
                                Some(t) => format!("<{t} for {tn}>::{name}"),
                                None => format!("{tn}::{name}"),
                            };
                            let sf = SrcFn {
                                attrs_inline: false,
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                self_ty: Some((*im.self_ty).clone()),
                                impl_generics: im.generics.clone(),
                                trait_path: tr.clone(),
                            };
                            nested(&key, &sf, &mut s);
                            s.fns.insert(key, sf);
                        }
                        ImplItem::Const(c) => {
                            let (ig, st) = (im.generics.clone(), im.self_ty.clone());
                            s.consts.insert(format!("{tn}::{}", c.ident), (quote!(impl #ig #st).to_string(), c.clone()));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    Ok(s)
}

/// What the loop contracts and hints of a function are written for: its loops and iterator chains
/// in order, and the texts it writes.
fn shape(b: &Block) -> Vec<String> {
    struct V(Vec<String>, Vec<String>);
    fn chain(e: &Expr) -> String {
        match e {
            Expr::MethodCall(m) => format!("{}.{}", chain(&m.receiver), m.method),
            Expr::Paren(p) => chain(&p.expr),
            Expr::Reference(r) => chain(&r.expr),
            Expr::Range(_) => "range".into(),
            Expr::Call(_) => "call".into(),
            _ => "".into(),
        }
    }
    fn calls(e: &Expr) -> String {
        struct C(Vec<String>);
        impl<'b> syn::visit::Visit<'b> for C {
            fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
                syn::visit::visit_expr_method_call(self, m);
                self.0.push(m.method.to_string());
            }
        }
        let mut c = C(vec![]);
        syn::visit::Visit::visit_expr(&mut c, e);
        c.0.join(".")
    }
    fn lits(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Group(g) => lits(g.stream(), out),
                proc_macro2::TokenTree::Literal(l) => {
                    let s = l.to_string();
                    if s.starts_with(['"', 'r']) {
                        out.push(s);
                    }
                }
                _ => {}
            }
        }
    }
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr_for_loop(&mut self, e: &'b ExprForLoop) {
            self.0.push(format!("for {}", chain(&e.expr)));
            syn::visit::visit_expr_for_loop(self, e);
        }
        fn visit_expr_while(&mut self, e: &'b ExprWhile) {
            self.0.push(format!("while{} {}", if matches!(&*e.cond, Expr::Let(_)) { " let" } else { "" }, calls(&e.cond)));
            syn::visit::visit_expr_while(self, e);
        }
        fn visit_expr_loop(&mut self, e: &'b ExprLoop) {
            self.0.push("loop".into());
            syn::visit::visit_expr_loop(self, e);
        }
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
            if m.args.iter().any(|a| matches!(a, Expr::Closure(_))) {
                self.0.push(chain(&Expr::MethodCall(m.clone())));
            }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_lit_str(&mut self, l: &'b LitStr) {
            self.1.push(l.to_token_stream().to_string());
        }
        fn visit_macro(&mut self, m: &'b Macro) {
            let n = m.path.segments.last().unwrap().ident.to_string();
            if n.starts_with("write") || n.starts_with("format") {
                lits(m.tokens.clone(), &mut self.1);
            }
        }
    }
    let mut v = V(vec![], vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1.sort();
    v.0.extend(v.1);
    v.0
}

/// The names bound in a function, in order: parameters first, then patterns as they occur.
fn binders(f: &SrcFn) -> Vec<String> {
    struct V(Vec<String>);
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_pat_ident(&mut self, i: &'b PatIdent) {
            let n = i.ident.to_string();
            if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') && n != "self" {
                self.0.push(n);
            }
            syn::visit::visit_pat_ident(self, i);
        }
        fn visit_item(&mut self, _: &'b Item) {}
    }
    let mut v = V(vec![]);
    for a in &f.sig.inputs {
        syn::visit::Visit::visit_fn_arg(&mut v, a);
    }
    syn::visit::Visit::visit_block(&mut v, &f.block);
    v.0
}

/// `m::n` becomes `to`, wherever it stands (a longer path keeps its beginning)
fn repath(t: proc_macro2::TokenStream, m: &str, n: &str, to: &str) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = t.into_iter().collect();
    let mut out: Vec<T> = vec![];
    let mut k = 0;
    while k < v.len() {
        let id = |i: usize, s: &str| matches!(v.get(i), Some(T::Ident(x)) if x == s);
        let col = |i: usize| matches!(v.get(i), Some(T::Punct(p)) if p.as_char() == ':');
        if id(k, m) && col(k + 1) && col(k + 2) && id(k + 3, n) {
            out.push(T::Ident(Ident::new(to, v[k + 3].span())));
            k += 4;
            continue;
        }
        out.push(match &v[k] {
            T::Group(g) => {
                let mut x = proc_macro2::Group::new(g.delimiter(), repath(g.stream(), m, n, to));
                x.set_span(g.span());
                T::Group(x)
            }
            x => x.clone(),
        });
        k += 1;
    }
    out.into_iter().collect()
}
struct Rename(BTreeMap<String, String>);
impl Rename {
    fn id(&self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn toks(&self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        use proc_macro2::TokenTree as T;
        let mut prev_dot = false;
        t.into_iter()
            .map(|x| match x {
                T::Ident(mut i) => {
                    if !prev_dot {
                        self.id(&mut i);
                    }
                    prev_dot = false;
                    T::Ident(i)
                }
                T::Group(g) => {
                    prev_dot = false;
                    let mut n = proc_macro2::Group::new(g.delimiter(), self.toks(g.stream()));
                    n.set_span(g.span());
                    T::Group(n)
                }
                T::Punct(p) => {
                    prev_dot = p.as_char() == '.';
                    T::Punct(p)
                }
                T::Literal(l) => {
                    prev_dot = false;
                    let s = l.to_string();
                    if s.starts_with('"') && s.contains('{') {
                        let mut s2 = s.clone();
                        for (a, b) in &self.0 {
                            s2 = s2.replace(&format!("{{{a}}}"), &format!("{{\u{1}{b}}}"));
                        }
                        let s2 = s2.replace('\u{1}', "");
                        if let Ok(l2) = s2.parse::<proc_macro2::Literal>() {
                            return T::Literal(l2);
                        }
                    }
                    T::Literal(l)
                }
            })
            .collect()
    }
}
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
        self.id(&mut i.ident);
        visit_mut::visit_pat_ident_mut(self, i);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            self.id(&mut p.path.segments[0].ident);
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.toks(m.tokens.clone());
    }
}
use syn::visit_mut;

/// Statements that do nothing are dropped: `let _x = <literal>;`, `();`, `<literal>;`.
fn drop_noops(b: &mut Block) {
    struct D;
    fn trivial(e: &Expr) -> bool {
        match e {
            Expr::Lit(_) => true,
            Expr::Tuple(t) => t.elems.iter().all(trivial),
            Expr::Unary(u) => trivial(&u.expr),
            Expr::Paren(p) => trivial(&p.expr),
            Expr::Block(b) => b.block.stmts.is_empty(),
            Expr::If(i) => trivial(&i.cond) && i.then_branch.stmts.is_empty() && i.else_branch.is_none(),
            Expr::Macro(m) => {
                let n = xform::path_str(&m.mac.path);
                matches!(n.as_str(), "println" | "print" | "eprintln" | "eprint")
            }
            _ => false,
        }
    }
    impl VisitMut for D {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            b.stmts.retain(|s| match s {
                Stmt::Local(l) => {
                    let under = match &l.pat {
                        Pat::Wild(_) => true,
                        Pat::Ident(i) => i.ident.to_string().starts_with('_'),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Wild(_) => true,
                            Pat::Ident(i) => i.ident.to_string().starts_with('_'),
                            _ => false,
                        },
                        _ => false,
                    };
                    !(under && l.init.as_ref().map_or(false, |i| i.diverge.is_none() && trivial(&i.expr)))
                }
                Stmt::Expr(e, Some(_)) => !trivial(e),
                Stmt::Macro(m) => {
                    let n = xform::path_str(&m.mac.path);
                    !matches!(n.as_str(), "println" | "print" | "eprintln" | "eprint")
                }
                _ => true,
            });
        }
    }
    D.visit_block_mut(b);
}

/// A counter that only printing reads (`let mut n = <literal>;`, `n += <literal>;`) is dropped, once the printing is.
fn drop_counters(b: &mut Block) {
    fn lit(e: &Expr) -> bool {
        matches!(e, Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_)))
    }
    fn step(s: &Stmt) -> Option<String> {
        let Stmt::Expr(Expr::Binary(e), Some(_)) = s else { return None };
        if !matches!(e.op, syn::BinOp::AddAssign(_)) || !lit(&e.right) {
            return None;
        }
        match &*e.left {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        }
    }
    fn decl(s: &Stmt) -> Option<String> {
        let Stmt::Local(l) = s else { return None };
        let i = l.init.as_ref()?;
        if i.diverge.is_some() || !lit(&i.expr) {
            return None;
        }
        let p = match &l.pat {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        match p {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
            _ => None,
        }
    }
    #[derive(Default)]
    struct Count(BTreeMap<String, (usize, usize)>);
    impl<'a> syn::visit::Visit<'a> for Count {
        fn visit_stmt(&mut self, s: &'a Stmt) {
            if let Some(n) = decl(s) {
                self.0.entry(n).or_default().0 += 1;
            } else if let Some(n) = step(s) {
                self.0.entry(n).or_default().1 += 1;
            }
            syn::visit::visit_stmt(self, s);
        }
    }
    fn words(t: proc_macro2::TokenStream, out: &mut BTreeMap<String, usize>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => *out.entry(i.to_string()).or_default() += 1,
                proc_macro2::TokenTree::Group(g) => words(g.stream(), out),
                proc_macro2::TokenTree::Literal(l) => {
                    // names in a format string
                    for w in l.to_string().split(|c: char| !c.is_alphanumeric() && c != '_') {
                        *out.entry(w.to_string()).or_default() += 1;
                    }
                }
                _ => {}
            }
        }
    }
    let mut c = Count::default();
    syn::visit::Visit::visit_block(&mut c, b);
    let mut all = BTreeMap::new();
    words(b.to_token_stream(), &mut all);
    let gone: BTreeSet<String> = c.0.iter().filter(|(n, (d, s))| *d == 1 && *s > 0 && all.get(*n) == Some(&(d + s))).map(|(n, _)| n.clone()).collect();
    struct D(BTreeSet<String>);
    impl VisitMut for D {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            b.stmts.retain(|s| !decl(s).or_else(|| step(s)).map_or(false, |n| self.0.contains(&n)));
        }
    }
    if !gone.is_empty() {
        D(gone).visit_block_mut(b);
    }
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.insert(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    out
}

/// How the type gets the comparison and hashing that the shims assume of it: derived, or written out.
fn traits_of(src: &Src, name: &str, it: &Item) -> Value {
    const TRAITS: &[&str] = &["PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Deref"];
    let ds = match it {
        Item::Struct(s) => derives(&s.attrs),
        Item::Enum(s) => derives(&s.attrs),
        _ => return json!({}),
    };
    let mut out = serde_json::Map::new();
    for t in TRAITS {
        if ds.contains(*t) {
            out.insert(t.to_string(), json!("derived"));
        }
    }
    for (tn, tr, text) in &src.impls {
        let t = tr.split('<').next().unwrap();
        if tn == name && TRAITS.contains(&t) {
            out.insert(t.to_string(), json!(text));
        }
    }
    Value::Object(out)
}

fn emit_item(it: &Item, extra: &str, unsupported: &mut Vec<String>) -> String {
    let mut it = it.clone();
    let (name, generics, ds) = match &it {
        Item::Struct(s) => (s.ident.to_string(), s.generics.clone(), derives(&s.attrs)),
        Item::Enum(s) => (s.ident.to_string(), s.generics.clone(), derives(&s.attrs)),
        Item::Type(s) => (s.ident.to_string(), s.generics.clone(), BTreeSet::new()),
        Item::Const(s) => (s.ident.to_string(), Generics::default(), BTreeSet::new()),
        _ => return String::new(),
    };
    struct M<'a>(&'a mut Vec<String>);
    impl<'a> VisitMut for M<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            map_type(t, self.0);
        }
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
        fn visit_field_mut(&mut self, f: &mut Field) {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
            self.visit_type_mut(&mut f.ty);
        }
        fn visit_variant_mut(&mut self, v: &mut Variant) {
            v.attrs.clear();
            for f in v.fields.iter_mut() {
                f.attrs.clear();
                f.vis = Visibility::Inherited;
                self.visit_type_mut(&mut f.ty);
            }
        }
        fn visit_generics_mut(&mut self, g: &mut Generics) {
            uidx(g);
        }
    }
    match &mut it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        Item::Type(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        Item::Const(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        _ => {}
    }
    M(unsupported).visit_item_mut(&mut it);
    let cl = Clauses(vec![]);
    let mut out = String::new();
    if !extra.is_empty() && extra != "noclone" {
        out.push_str(extra);
        out.push('\n');
    }
    out.push_str(&print::print(it.to_token_stream(), &cl));
    out.push('\n');
    if extra != "noclone" && ds.contains("Clone") {
        let mut g = generics;
        uidx(&mut g);
        let (ig, tg, wc) = g.split_for_impl();
        let id: Ident = parse_str(&name).unwrap();
        let body = if ds.contains("Copy") { quote!({ *self }) } else { quote!({ unimplemented!() }) };
        let ext = if ds.contains("Copy") { quote!() } else { quote!(#[verifier::external_body]) };
        let t = quote!(impl #ig Clone for #id #tg #wc { #ext fn clone(&self) -> Self #body });
        // the contract of clone is the one of the shim trait VClone
        out.push_str(&print::print(t, &cl));
        out.push('\n');
        if ds.contains("Copy") {
            let t = quote!(impl #ig Copy for #id #tg #wc {});
            out.push_str(&print::print(t, &cl));
            out.push('\n');
        }
    }
    out
}

/// `Copy + Into<usize> + From<usize>` bounds become the shim trait `UIdx`; writers become `TextSink`.
fn iter_bounds(b: &mut syn::punctuated::Punctuated<TypeParamBound, Token![+]>) {
    for x in b.iter_mut() {
        if let TypeParamBound::Trait(t) = x {
            if let Some(l) = t.path.segments.last_mut() {
                if l.ident == "Iterator" {
                    l.ident = syn::Ident::new("VIterator", proc_macro2::Span::call_site());
                }
                if l.ident == "Into" {
                    l.ident = syn::Ident::new("VIntoT", proc_macro2::Span::call_site());
                }
                if l.ident == "Ord" {
                    l.ident = syn::Ident::new("VOrd", proc_macro2::Span::call_site());
                }
            }
        }
    }
}

fn uidx(g: &mut Generics) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.default = None;
            t.eq_token = None;
            let s = t.bounds.to_token_stream().to_string().replace(' ', "");
            if s.contains("Into<usize>") {
                t.bounds = parse_quote!(UIdx);
            } else if s.contains("Write") {
                t.bounds = parse_quote!(TextSink);
            } else {
                iter_bounds(&mut t.bounds);
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                let s = t.bounds.to_token_stream().to_string().replace(' ', "");
                if s.contains("Into<usize>") {
                    t.bounds = parse_quote!(UIdx);
                } else if s.contains("Write") {
                    t.bounds = parse_quote!(TextSink);
                } else {
                    iter_bounds(&mut t.bounds);
                }
            }
        }
    }
}

struct Out {
    text: String,
    fns: Vec<Value>,
    items: Vec<Value>,
    problems: Vec<String>,
}

fn lines(s: &str) -> usize {
    s.matches('\n').count() + 1
}

fn ret_kind(sig: &Signature) -> RetKind {
    match &sig.output {
        ReturnType::Default => RetKind::Unit,
        ReturnType::Type(_, t) => {
            let s = t.to_token_stream().to_string().replace(' ', "");
            if s.starts_with("Option<") {
                RetKind::Option
            } else if s.starts_with("Result<") || s.ends_with("fmt::Result") {
                RetKind::Result
            } else {
                RetKind::Other
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    out: &mut Out,
    module: &Module,
    src: &Src,
    c: &FnContract,
    external: &BTreeSet<String>,
    locals: &Value,
    in_impl: bool,
    vacuity: bool,
) {
    let id = format!("{}::{}", module.name, c.path);
    let f = match src.fns.get(&c.path) {
        Some(f) => f,
        None => {
            out.problems.push(format!("{id}: not found in {}", module.src));
            out.fns.push(json!({"id": id, "path": c.path, "module": module.name, "src": module.src, "status": "missing"}));
            return;
        }
    };
    let mut f = f.clone();
    drop_noops(&mut f.block);
    drop_counters(&mut f.block);
    // the verifier takes ASCII names only
    struct Ascii;
    impl VisitMut for Ascii {
        fn visit_ident_mut(&mut self, i: &mut Ident) {
            let s = i.to_string();
            if !s.is_ascii() {
                let t: String = s.chars().map(|c| if c.is_ascii() { c.to_string() } else { format!("u{:x}_", c as u32) }).collect();
                *i = Ident::new(&t, i.span());
            }
        }
    }
    Ascii.visit_block_mut(&mut f.block);
    // consistent names
    let cur = binders(&f);
    let mut renamed = false;
    let auto = src.auto.get(&c.path);
    if auto.is_some() {
        // the names are the extractor's own
    } else if let Some(base) = locals.get(&id).and_then(|v| v.as_array()) {
        let base: Vec<String> = base.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        if base.len() == cur.len() && base != cur {
            let mut m: BTreeMap<String, String> = BTreeMap::new();
            let mut ok = true;
            for (a, b) in cur.iter().zip(&base) {
                match m.get(a) {
                    Some(x) if x != b => ok = false,
                    _ => {
                        m.insert(a.clone(), b.clone());
                    }
                }
            }
            let vals: BTreeSet<&String> = m.values().collect();
            if vals.len() != m.len() {
                ok = false;
            }
            m.retain(|a, b| a != b);
            // a name of the annotated function that is still there has been moved, not renamed
            if m.iter().any(|(a, b)| base.contains(a) || cur.contains(b)) {
                ok = false;
            }
            if ok {
                let mut r = Rename(m);
                for a in f.sig.inputs.iter_mut() {
                    r.visit_fn_arg_mut(a);
                }
                r.visit_block_mut(&mut f.block);
                renamed = true;
            }
        }
    }
    // `mut self` by value: a local of its own
    let mut f = f.clone();
    let mut by_mut = false;
    if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            by_mut = true;
        }
    }
    if by_mut {
        let mut r = Rename([("self".to_string(), "self__".to_string())].into_iter().collect());
        r.visit_block_mut(&mut f.block);
        f.block.stmts.insert(0, syn::parse_quote!(let mut self__ = self;));
    }
    // a pattern as a parameter: a parameter of its own, taken apart at the start
    let mut taken = vec![];
    for (n, a) in f.sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(a) = a {
            if matches!(&*a.pat, Pat::Tuple(_) | Pat::TupleStruct(_) | Pat::Struct(_)) {
                let id = quote::format_ident!("arg{}__", n);
                let p = (*a.pat).clone();
                taken.push(syn::parse_quote!(let #p = #id;));
                *a.pat = syn::parse_quote!(#id);
            }
        }
    }
    for s in taken.into_iter().rev() {
        f.block.stmts.insert(0, s);
    }
    // a method `iter` of the crate is called under the name that `iter` is given
    if (f.sig.ident == "iter" || f.sig.ident == "to_string") && f.sig.inputs.len() == 1 && matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
        f.sig.ident = syn::Ident::new(&format!("v{}", f.sig.ident), f.sig.ident.span());
    }
    let f = &f;
    let mut clauses = Clauses(vec![]);
    let mut x = X {
        c,
        clauses: &mut clauses,
        loops: 0,
        loop_stack: vec![],
        calls: BTreeMap::new(),
        lets: BTreeMap::new(),
        panics: 0,
        used_hints: vec![false; c.hints.len()],
        unsupported: vec![],
        ret_option: ret_kind(&f.sig),
        closure_none: vec![],
        tmp: 0,
        emit: false,
        vacuity,
        extra_inv: None,
    };
    // the body
    let is_ext = external.contains(&id) || external.contains(&c.path);
    let start_h = x.hints("start");
    let mut blk = f.block.clone();
    x.visit_block_mut(&mut blk);
    let end_h = x.hints("end");
    let mut body = proc_macro2::TokenStream::new();
    body.extend(start_h);
    if end_h.is_empty() {
        for s in &blk.stmts {
            s.to_tokens(&mut body);
        }
    } else {
        let n = blk.stmts.len();
        let mut done = false;
        for (i, s) in blk.stmts.iter().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    if ret_kind(&f.sig) != RetKind::Unit {
                        body.extend(quote!(let r__ = #e; #end_h r__));
                        done = true;
                        continue;
                    }
                    body.extend(quote!(#e; #end_h));
                    done = true;
                    continue;
                }
            }
            s.to_tokens(&mut body);
        }
        if !done {
            body.extend(end_h);
        }
    }
    let mut unsupported = x.unsupported.clone();
    let unused: Vec<String> = c.hints.iter().zip(&x.used_hints).filter(|(_, u)| !**u).map(|(h, _)| h.0.clone()).collect();
    let nloops = x.loops;
    let npanics = x.panics;
    for k in c.loops.keys() {
        if *k > nloops {
            unsupported.push(format!("contract for loop {k}, but there are {nloops}"));
        }
    }
    for u in &unused {
        unsupported.push(format!("hint anchor {u:?} not found"));
    }
    if let Some(o) = c.opts.iter().find_map(|o| o.strip_prefix("loops ")) {
        if o.trim() != nloops.to_string() {
            unsupported.push(format!("{nloops} loops, {o} expected"));
        }
    }
    // the signature
    let mut sig = f.sig.clone();
    let mut dummy = vec![];
    struct MS<'a>(&'a mut Vec<String>);
    impl<'a> VisitMut for MS<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            map_type(t, self.0);
        }
        fn visit_generics_mut(&mut self, g: &mut Generics) {
            uidx(g);
        }
        fn visit_path_mut(&mut self, p: &mut Path) {
            xform::map_path(p);
            visit_mut::visit_path_mut(self, p);
        }
    }
    MS(&mut dummy).visit_signature_mut(&mut sig);
    let is_trait = c.trait_fn;
    let vis = if is_trait { "" } else { "pub " };
    let retn = c.ret.clone().unwrap_or("r".into());
    let cl0 = Clauses(vec![]);
    let mut head = if let Some(s) = &c.sig {
        s.clone()
    } else {
        let output = sig.output.clone();
        let mut s2 = sig.clone();
        s2.output = ReturnType::Default;
        let mut h = print::print(s2.to_token_stream(), &cl0).trim().to_string();
        // the where clause goes after the return type
        let (h0, wc) = match h.find(" where ") {
            Some(i) => (h[..i].to_string(), h[i..].to_string()),
            None => (h.clone(), String::new()),
        };
        h = h0;
        match (&c.ret_ty, output) {
            (Some(t), _) => h.push_str(&format!(" -> ({retn}: {t})")),
            (None, ReturnType::Type(_, t)) => {
                let t = print::print(t.to_token_stream(), &cl0).trim().to_string();
                h.push_str(&format!(" -> ({retn}: {t})"));
            }
            _ => {}
        }
        h.push_str(&wc);
        h
    };
    head = head.replace('\n', " ");
    let attrs = c.attrs.clone();
    let ext = is_ext || !unsupported.is_empty();
    let mut t = String::new();
    let mut name_open = false;
    if !in_impl {
        if let Some(st) = &f.self_ty {
            let mut g = f.impl_generics.clone();
            uidx(&mut g);
            let (ig, _, wc) = g.split_for_impl();
            let mut st = st.clone();
            map_type(&mut st, &mut dummy);
            let h = print::print(quote!(impl #ig #st #wc), &cl0);
            t.push_str(&format!("{} {{\n", h.trim()));
            name_open = true;
        }
    }
    t.push_str(&attrs);
    let assumed = c.attrs.contains("external_body");
    if ext && !assumed {
        t.push_str("#[verifier::external_body]\n");
    } else if !attrs.contains("loop_isolation") && nloops > 0 {
        t.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    let spec_start_off = lines(&t);
    t.push_str(&format!("{vis}{head}\n"));
    if !c.spec.trim().is_empty() {
        t.push_str(&c.spec);
    } else if let Some(a) = auto {
        t.push_str(a);
    }
    let body_text = print::print(quote!({ #body }), &clauses);
    if ext || assumed {
        t.push_str("{ unimplemented!() }\n");
    } else {
        t.push_str(&body_text);
        t.push('\n');
    }
    if name_open {
        t.push_str("}\n");
    }
    let start = lines(&out.text);
    out.text.push_str(&t);
    let end = lines(&out.text) - 1;
    let norm = f.block.to_token_stream().to_string();
    out.fns.push(json!({
        "id": id, "path": c.path, "module": module.name, "src": module.src,
        "start": start, "end": end, "sig_line": start + spec_start_off - 1,
        "status": if assumed { "assumed" } else if ext { "external" } else { "body" },
        "unsupported": unsupported, "renamed": renamed, "loops": nloops, "panics": npanics,
        "contract": format!("{}:{}", module.file, c.path),
        "tokens": norm.split_whitespace().count(),
        "binders": cur, "shape": shape(&f.block),
        "inline": f.attrs_inline, "trait": f.trait_path,
    }));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let src_root = get("--src").unwrap_or("/repo/src".into());
    let dir = get("--contracts").expect("--contracts");
    let outp = get("--out").expect("--out");
    let report = get("--report").expect("--report");
    let external: BTreeSet<String> =
        get("--external").map(|s| s.split('|').filter(|x| !x.is_empty()).map(String::from).collect()).unwrap_or_default();
    let vacuity = args.iter().any(|a| a == "--vacuity");
    let only: Option<BTreeSet<String>> = get("--modules").map(|s| s.split(',').map(String::from).collect());
    let locals: Value = get("--locals")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or(json!({}));
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    let mut mods: Vec<Module> = vec![];
    let mut shims: Vec<(String, String)> = vec![];
    for p in files {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        let text = std::fs::read_to_string(&p).unwrap_or_default();
        if name.ends_with(".vc") {
            match contracts::parse(&name, &text) {
                Ok(m) => mods.extend(m),
                Err(e) => {
                    eprintln!("{e}");
                    std::process::exit(3);
                }
            }
        } else if name.ends_with(".rs") {
            shims.push((name.trim_end_matches(".rs").to_string(), text));
        }
    }
    if let Some(o) = &only {
        mods.retain(|m| o.contains(&m.name));
        shims.retain(|m| o.contains(&m.0));
    }
    let mut srcs: BTreeMap<String, Src> = BTreeMap::new();
    let mut out = Out { text: String::new(), fns: vec![], items: vec![], problems: vec![] };
    out.text.push_str("#![allow(warnings)]\n#![allow(unused_imports)]\nuse vstd::prelude::*;\nfn main() {}\n");
    out.text.push_str("pub mod all {\n");
    for (n, _) in &shims {
        out.text.push_str(&format!("pub use crate::{n}::*;\n"));
    }
    for m in &mods {
        out.text.push_str(&format!("pub use crate::{}::*;\n", m.name));
    }
    out.text.push_str("}\n");
    for m in &mut mods {
        if m.src != "-" && !srcs.contains_key(&m.src) {
            match load(std::path::Path::new(&src_root), &m.src) {
                Ok(s) => {
                    srcs.insert(m.src.clone(), s);
                }
                Err(e) => {
                    out.problems.push(e);
                    srcs.insert(m.src.clone(), Src::default());
                }
            }
        }
        // one entry per alternative of a grammar; the entry `X_*` is the template for those of `X`
        let order = srcs.get(&m.src).map_or(vec![], |s| s.auto_order.clone());
        if !order.is_empty() {
            let (tmpl, rest): (Vec<Entry>, Vec<Entry>) = std::mem::take(&mut m.entries).into_iter().partition(|e| matches!(e, Entry::Fn(c) if c.path.ends_with("_*")));
            m.entries = rest;
            for n in order {
                let pre = n.rsplit_once('_').unwrap().0;
                let mut c = tmpl
                    .iter()
                    .find_map(|e| match e {
                        Entry::Fn(c) if c.path.strip_suffix("_*") == Some(pre) => Some(c.clone()),
                        _ => None,
                    })
                    .unwrap_or_default();
                if let Some(a) = srcs[&m.src].alias.get(&n) {
                    for (_, h) in &mut c.hints {
                        for (k, v) in a {
                            *h = h.replace(k, v);
                        }
                    }
                }
                c.path = n;
                m.entries.push(Entry::Fn(c));
            }
        }
        for e in &m.entries {
            if let Entry::Item(n, _) = e {
                if let Some((tn, c)) = srcs.get(&m.src).and_then(|s| s.consts.get(n)) {
                    if tn.contains('<') {
                        xform::LIFTED.with(|l| l.borrow_mut().insert(c.ident.to_string()));
                    }
                }
            }
        }
    }
    let mut ranges = vec![];
    for (n, t) in &shims {
        let start = lines(&out.text);
        out.text.push_str(&format!("pub mod {n} {{\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::all::*;\nverus! {{\n{t}\n}}\n}}\n"));
        ranges.push(json!({"name": n, "start": start, "end": lines(&out.text) - 1, "kind": "shim"}));
    }
    for m in &mods {
        let start = lines(&out.text);
        let empty = Src::default();
        let src = srcs.get(&m.src).unwrap_or(&empty);
        out.text.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::all::*;\nverus! {{\n", m.name));
        let mut in_impl = false;
        for e in &m.entries {
            match e {
                Entry::Text(t) => out.text.push_str(t),
                Entry::ImplOpen(h) => {
                    out.text.push_str(&format!("{h} {{\n"));
                    in_impl = true;
                }
                Entry::ImplClose => {
                    out.text.push_str("}\n");
                    in_impl = false;
                }
                Entry::Item(n, extra) => {
                    let mut uns = vec![];
                    if let Some((tn, c)) = src.consts.get(n) {
                        let cl = Clauses(vec![]);
                        let mut c = c.clone();
                        c.vis = parse_quote!(pub);
                        c.attrs.clear();
                        let t = print::print(c.to_token_stream(), &cl);
                        if in_impl || tn.contains('<') {
                            out.text.push_str(&format!("{t}\n"));
                        } else {
                            out.text.push_str(&format!("{tn} {{ {} }}\n", t.trim()));
                        }
                        out.items.push(json!({"name": n, "module": m.name}));
                    } else if let Some(it) = src.items.get(n) {
                        let t = emit_item(it, extra, &mut uns);
                        out.text.push_str(&t);
                        out.items.push(json!({"name": n, "module": m.name, "traits": traits_of(src, n, it)}));
                    } else {
                        out.problems.push(format!("{}: item {n} not found in {}", m.name, m.src));
                    }
                }
                Entry::Fn(c) => emit_fn(&mut out, m, src, c, &external, &locals, in_impl, vacuity),
            }
        }
        out.text.push_str("}\n}\n");
        ranges.push(json!({"name": m.name, "start": start, "end": lines(&out.text) - 1, "kind": "module"}));
    }
    std::fs::write(&outp, &out.text).unwrap();
    let r = json!({"functions": out.fns, "items": out.items, "problems": out.problems, "modules": ranges});
    std::fs::write(&report, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    for p in &out.problems {
        eprintln!("problem: {p}");
    }
    for f in &out.fns {
        if let Some(u) = f.get("unsupported").and_then(|u| u.as_array()) {
            for x in u {
                eprintln!("unsupported: {}: {}", f["id"].as_str().unwrap(), x.as_str().unwrap());
            }
        }
    }
    if let Some(p) = get("--dump-traits") {
        let mut m = serde_json::Map::new();
        for i in &out.items {
            if let Some(t) = i.get("traits").filter(|t| t.as_object().map_or(false, |o| !o.is_empty())) {
                m.insert(i["name"].as_str().unwrap().to_string(), t.clone());
            }
        }
        std::fs::write(p, serde_json::to_string_pretty(&Value::Object(m)).unwrap() + "\n").unwrap();
    }
    if let Some(p) = get("--dump-shapes") {
        let mut m = serde_json::Map::new();
        for f in &out.fns {
            if let Some(t) = f.get("shape").filter(|t| t.as_array().map_or(false, |o| !o.is_empty())) {
                m.insert(f["id"].as_str().unwrap().to_string(), t.clone());
            }
        }
        std::fs::write(p, serde_json::to_string_pretty(&Value::Object(m)).unwrap() + "\n").unwrap();
    }
    if let Some(p) = get("--dump-locals") {
        let mut m = serde_json::Map::new();
        for f in &out.fns {
            if let Some(b) = f.get("binders") {
                m.insert(f["id"].as_str().unwrap().to_string(), b.clone());
            }
        }
        std::fs::write(p, serde_json::to_string_pretty(&Value::Object(m)).unwrap()).unwrap();
    }
}
