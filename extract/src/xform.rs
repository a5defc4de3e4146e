//! Desugaring of a function body into the subset Verus accepts, with numbered anchors for contracts.
use crate::contracts::FnContract;
use crate::print::Clauses;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct X<'a> {
    pub c: &'a FnContract,
    pub clauses: &'a mut Clauses,
    pub loops: usize,
    pub loop_stack: Vec<LoopCtx>,
    pub calls: BTreeMap<String, usize>,
    pub lets: BTreeMap<String, usize>,
    pub panics: usize,
    pub used_hints: Vec<bool>,
    pub unsupported: Vec<String>,
    pub ret_option: RetKind,
    pub closure_none: Vec<TokenStream>, // what `?` does inside an inlined closure
    pub tmp: usize,
    pub vacuity: bool,
    pub extra_inv: Option<(String, String)>,
    pub emit: bool, // the function writes text (write!/push_str desugaring)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RetKind {
    Unit,
    Option,
    Result,
    Other,
}

pub struct LoopCtx {
    pub k: usize,
    pub label: Option<String>,
    pub synthetic: bool,
    pub has_break: bool,
}

#[derive(Clone)]
enum Adapter {
    Map(Closure),
    Filter(Closure),
    FilterMap(Closure),
    FlatMap(Closure),
    Inspect,
}
#[derive(Clone)]
enum Closure {
    C(Vec<Pat>, Box<Expr>),
    Path(Expr),
}
enum Terminal {
    Collect(Option<TokenStream>),
    Fold(Expr, Closure),
    Any(Closure),
    All(Closure),
    Find(Closure),
    FindMap(Closure),
    Position(Closure),
    None,
}

fn closure_of(e: &Expr) -> Option<Closure> {
    match e {
        Expr::Closure(c) => Some(Closure::C(
            c.inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                })
                .collect(),
            match &*c.body {
                // a block that is one expression
                Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(x, None) if matches!(x, Expr::MethodCall(_))) => match &b.block.stmts[0] {
                    Stmt::Expr(x, None) => Box::new(x.clone()),
                    _ => unreachable!(),
                },
                _ => c.body.clone(),
            },
        )),
        Expr::Path(_) => Some(Closure::Path(e.clone())),
        _ => None,
    }
}

pub fn lit_usize(k: usize) -> Literal {
    Literal(proc_macro2::Literal::usize_unsuffixed(k))
}
pub struct Literal(proc_macro2::Literal);
impl ToTokens for Literal {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}

const SOURCES: &[&str] = &["iter", "into_iter", "iter_mut", "chars", "keys", "values", "tokens_iter"];
const FREE_ADAPTERS: &[&str] = &["enumerate", "rev", "copied", "cloned", "skip", "take", "chain"];
const STRONG: &[&str] = &["enumerate", "rev", "skip", "take", "chain", "filter_map", "flat_map", "fold", "any", "all", "find", "find_map", "position", "collect"];

fn is_iterish(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            SOURCES.contains(&n.as_str()) || STRONG.contains(&n.as_str()) || ((n == "map" || n == "filter" || FREE_ADAPTERS.contains(&n.as_str())) && is_iterish(&m.receiver))
        }
        Expr::Paren(p) => is_iterish(&p.expr),
        Expr::Range(_) => true,
        Expr::Call(c) => {
            let s = c.func.to_token_stream().to_string().replace(' ', "");
            s.ends_with("iter::once")
        }
        _ => false,
    }
}

/// Splits `e` into the part without closures, closure adapters after it, and a terminal.
fn split_chain(e: &Expr, in_for: bool) -> Option<(Expr, Vec<Adapter>, Terminal)> {
    let mut adapters: Vec<Adapter> = vec![];
    let mut cur = e.clone();
    let mut term = Terminal::None;
    let mut strong = in_for;
    let mut has_terminal = false;
    if let Expr::MethodCall(m) = &cur {
        let n = m.method.to_string();
        let args: Vec<&Expr> = m.args.iter().collect();
        let t = match (n.as_str(), args.len()) {
            ("collect", 0) => Some(Terminal::Collect(m.turbofish.as_ref().map(|t| t.args.to_token_stream()))),
            ("fold", 2) => Some(Terminal::Fold(args[0].clone(), closure_of(args[1])?)),
            ("any", 1) => Some(Terminal::Any(closure_of(args[0])?)),
            ("all", 1) => Some(Terminal::All(closure_of(args[0])?)),
            ("find", 1) => Some(Terminal::Find(closure_of(args[0])?)),
            ("find_map", 1) => Some(Terminal::FindMap(closure_of(args[0])?)),
            ("position", 1) => Some(Terminal::Position(closure_of(args[0])?)),
            _ => None,
        };
        if let Some(t) = t {
            strong = true;
            has_terminal = !matches!(t, Terminal::Collect(_));
            term = t;
            cur = (*m.receiver).clone();
        }
    }
    loop {
        let m = match &cur {
            Expr::MethodCall(m) => m.clone(),
            _ => break,
        };
        let n = m.method.to_string();
        let a = m.args.first().cloned();
        match (n.as_str(), m.args.len()) {
            ("map", 1) => adapters.push(Adapter::Map(closure_of(&a.unwrap())?)),
            ("filter", 1) => adapters.push(Adapter::Filter(closure_of(&a.unwrap())?)),
            ("filter_map", 1) => adapters.push(Adapter::FilterMap(closure_of(&a.unwrap())?)),
            ("flat_map", 1) => adapters.push(Adapter::FlatMap(closure_of(&a.unwrap())?)),
            ("by_ref", 0) => {}
            _ => break,
        }
        if STRONG.contains(&n.as_str()) {
            strong = true;
        }
        cur = (*m.receiver).clone();
    }
    adapters.reverse();
    if !strong && !is_iterish(&cur) {
        return None;
    }
    if adapters.is_empty() && !has_terminal {
        return None;
    }
    // find/any/... on a range or iterator; adapters on anything iterator-like
    Some((cur, adapters, term))
}

impl<'a> X<'a> {
    pub fn clause(&mut self, text: String) -> TokenStream {
        let k = lit_usize(self.clauses.0.len());
        self.clauses.0.push(text);
        quote!(__vx_clause!(#k);)
    }
    fn hint_text(&mut self, text: String) -> TokenStream {
        let k = lit_usize(self.clauses.0.len());
        self.clauses.0.push(text);
        quote!(__vx_hint!(#k);)
    }
    /// The hints anchored at `anchor`, as statements.
    pub fn hints(&mut self, anchor: &str) -> TokenStream {
        let mut out = TokenStream::new();
        let vac = if !self.vacuity {
            None
        } else if anchor == "start" {
            Some(0)
        } else if anchor == "end" {
            Some(999)
        } else {
            anchor.strip_prefix("loop ").and_then(|r| r.strip_suffix(" end")).and_then(|r| r.parse().ok())
        };
        for i in 0..self.c.hints.len() {
            if self.c.hints[i].0.split_whitespace().collect::<Vec<_>>().join(" ") == anchor {
                self.used_hints[i] = true;
                let t = self.c.hints[i].1.clone();
                let k = anchor.strip_prefix("loop ").and_then(|r| r.split(' ').next()).and_then(|r| r.parse().ok());
                let t = self.subst(&t, k);
                let h = self.hint_text(t);
                out.extend(h);
            }
        }
        if let Some(n) = vac {
            let h = self.hint_text(format!("proof {{ assert(vac_pt({n})); }}"));
            out.extend(h);
        }
        out
    }
    /// `$i $s $it $acc $res` of loop k (the innermost when None), `$i2` etc.
    fn subst(&self, t: &str, k: Option<usize>) -> String {
        let cur = k.or(self.loop_stack.last().map(|l| l.k)).unwrap_or(0);
        let b: Vec<char> = t.chars().collect();
        let mut out = String::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == '$' {
                let mut j = i + 1;
                while j < b.len() && b[j].is_alphabetic() {
                    j += 1;
                }
                let name: String = b[i + 1..j].iter().collect();
                let mut d = j;
                while d < b.len() && b[d].is_ascii_digit() {
                    d += 1;
                }
                let num: String = b[j..d].iter().collect();
                let n = if num.is_empty() { cur.to_string() } else { num };
                out.push_str(&format!("{}{}__", name, n));
                i = d;
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        out
    }
    fn lp(&self, k: usize, n: &str) -> Ident {
        format_ident!("{}{}__", n, k)
    }

    fn loop_clause(&mut self, k: usize, auto_inv: &str, auto_ens: &str, auto_dec: &str) -> TokenStream {
        let user = self.c.loops.get(&k).cloned().unwrap_or_default();
        let user = self.subst(&user, Some(k));
        // sections: invariant / invariant_except_break / ensures / decreases
        let mut inv = String::from(auto_inv);
        let mut ieb = String::new();
        let mut ens = String::from(auto_ens);
        if let Some((a, b)) = self.extra_inv.take() {
            ieb.push_str(&a);
            ens.push_str(&b);
        }
        let mut dec = String::new();
        let mut cur = 0;
        for line in user.lines() {
            let mut l = line.trim();
            for (kw, n) in [("invariant_except_break", 1), ("invariant", 0), ("ensures", 2), ("decreases", 3)] {
                if let Some(r) = l.strip_prefix(kw) {
                    if r.is_empty() || r.starts_with(char::is_whitespace) {
                        cur = n;
                        l = r.trim();
                        break;
                    }
                }
            }
            let dst = match cur {
                0 => &mut inv,
                1 => &mut ieb,
                2 => &mut ens,
                _ => &mut dec,
            };
            dst.push_str(l);
            dst.push('\n');
        }
        if dec.trim().is_empty() {
            dec = auto_dec.to_string();
        }
        let mut t = String::new();
        if !ieb.trim().is_empty() {
            t.push_str(&format!("invariant_except_break\n{ieb}"));
        }
        if !inv.trim().is_empty() {
            t.push_str(&format!("invariant\n{inv}"));
        }
        if !ens.trim().is_empty() {
            t.push_str(&format!("ensures\n{ens}"));
        }
        if !dec.trim().is_empty() {
            t.push_str(&format!("decreases\n{dec}"));
        }
        self.clause(t)
    }

    fn new_loop(&mut self) -> usize {
        self.loops += 1;
        self.loops
    }

    /// The generic iteration loop: `stmts(k, x)` gives the body for the element ident.
    fn iter_loop(
        &mut self,
        k: usize,
        label: Option<Label>,
        source: TokenStream,
        pre: TokenStream,
        body: TokenStream,
        auto_ens: String,
    ) -> TokenStream {
        let it = self.lp(k, "it");
        let s = self.lp(k, "s");
        let i = self.lp(k, "i");
        let x = self.lp(k, "x");
        let ex = self.extra_inv.take().unwrap_or_default();
        self.extra_inv = Some((format!("{it}.wf_it(),\n{}", ex.0), ex.1));
        let cl = self.loop_clause(
            k,
            &format!("0 <= {i} <= {s}.len(),\n{it}.rem() == {s}.skip({i}),\n"),
            &auto_ens,
            &format!("{s}.len() - {i}"),
        );
        let before = self.hints(&format!("loop {k} before"));
        let after = self.hints(&format!("loop {k} after"));
        let gh = self.hint_text(format!("let ghost {s} = {it}.rem();\nlet ghost mut {i}: int = 0;\nassert({s} =~= {s}.skip(0));"));
        let step = self.hint_text(format!(
            "proof {{ {i} = {i} + 1; assert({it}.rem() =~= {s}.skip({i})); assert({x} == {s}[{i} - 1]); }}"
        ));
        quote! {
            let mut #it = #source;
            #pre
            #gh
            #before
            #label loop {
                #cl
                match #it.next() {
                    None => { break; }
                    Some(#x) => {
                        #step
                        #body
                    }
                }
            }
            #after
        }
    }

    fn apply1(&mut self, c: &Closure, arg: TokenStream) -> TokenStream {
        match c {
            Closure::C(ps, b) => {
                let p = &ps[0];
                let b = self.expr_ts((**b).clone());
                quote!({ let #p = #arg; #b })
            }
            Closure::Path(f) => {
                let f = self.expr_ts(f.clone());
                quote!(#f(#arg))
            }
        }
    }

    fn expr_ts(&mut self, mut e: Expr) -> TokenStream {
        self.visit_expr_mut(&mut e);
        e.to_token_stream()
    }

    fn chain(&mut self, base: Expr, adapters: Vec<Adapter>, term: Terminal) -> TokenStream {
        let k = self.new_loop();
        let mut base = base;
        let src = self.iter_source(&mut base);
        self.loop_stack.push(LoopCtx { k, label: None, synthetic: true, has_break: false });
        let start = self.hints(&format!("loop {k} start"));
        let x = self.lp(k, "x");
        let acc = self.lp(k, "acc");
        let res = self.lp(k, "res");
        let s = self.lp(k, "s");
        let i = self.lp(k, "i");
        let full = format!("{i} == {s}.len(),\n");
        let mut pipe = start;
        let mut tail: Option<TokenStream> = None; // innermost flat_map
        let mut flat: Option<(usize, TokenStream)> = None;
        let n_ad = adapters.len();
        for (ai, a) in adapters.iter().enumerate() {
            match a {
                Adapter::Map(c) => {
                    let v = self.apply1(c, quote!(#x));
                    pipe.extend(quote!(let #x = #v;));
                }
                Adapter::Filter(c) => {
                    let v = self.apply1(c, quote!(&#x));
                    let h = self.hints(&format!("loop {k} end"));
                    pipe.extend(quote!(if !(#v) { #h continue; }));
                }
                Adapter::FilterMap(c) => {
                    let h = self.hints(&format!("loop {k} end"));
                    self.closure_none.push(quote!({ #h continue }));
                    let v = self.apply1(c, quote!(#x));
                    self.closure_none.pop();
                    let h = self.hints(&format!("loop {k} end"));
                    pipe.extend(quote!(let #x = match #v { Some(y__) => y__, None => { #h continue; } };));
                }
                Adapter::FlatMap(c) => {
                    // only as the last adapter before collect / fold / for
                    if let Closure::C(ps, b) = c {
                        let p = ps[0].clone();
                        let (ib, ia, it) = match split_chain(b, true) {
                            Some(t) => t,
                            None => ((**b).clone(), vec![], Terminal::None),
                        };
                        if !matches!(it, Terminal::None) || ai + 1 != n_ad {
                            self.unsupported.push("flat_map".into());
                        }
                        let _ = (ib, ia);
                        pipe.extend(quote!(let #p = #x;));
                        flat = Some((k, b.to_token_stream()));
                    } else if let Closure::Path(f) = c {
                        let f = self.expr_ts(f.clone());
                        flat = Some((k, quote!(#f(#x))));
                    }
                }
                Adapter::Inspect => {}
            }
        }
        let end = self.hints(&format!("loop {k} end"));
        let out = match term {
            Terminal::Collect(tf) => {
                let body = if let Some((_, inner)) = flat {
                    // inner loop pushes into the same accumulator
                    let inner_e: Expr = parse2(inner).unwrap();
                    let (ib, ia, _) = split_chain(&inner_e, true).unwrap_or((inner_e, vec![], Terminal::None));
                    let t = self.chain_push(ib, ia, acc.clone());
                    quote!(#pipe #t #end)
                } else {
                    quote!(#pipe #acc.push(#x); #end)
                };
                self.loop_stack.pop();
                let l = self.iter_loop(k, None, src, quote!(let mut #acc = Vec::new();), body, full);
                let _ = &mut tail;
                match tf {
                    Some(t) => {
                        let t = self.ty_ts(t);
                        quote!({ #l collect_into::<#t, _>(#acc) })
                    }
                    None => quote!({ #l collect_into(#acc) }),
                }
            }
            Terminal::None => {
                let body = if let Some((_, inner)) = flat {
                    let inner_e: Expr = parse2(inner).unwrap();
                    let (ib, ia, _) = split_chain(&inner_e, true).unwrap_or((inner_e, vec![], Terminal::None));
                    let t = self.chain_push(ib, ia, acc.clone());
                    quote!(#pipe #t #end)
                } else {
                    quote!(#pipe #acc.push(#x); #end)
                };
                self.loop_stack.pop();
                let l = self.iter_loop(k, None, src, quote!(let mut #acc = Vec::new();), body, full);
                quote!({ #l #acc.vinto_iter() })
            }
            Terminal::Fold(init, c) => {
                let init = self.expr_ts(init);
                let (ap, xp, b) = match c {
                    Closure::C(ps, b) if ps.len() == 2 => (ps[0].clone(), ps[1].clone(), *b),
                    _ => {
                        self.unsupported.push("fold".into());
                        return quote!(());
                    }
                };
                let b = self.expr_ts(b);
                let body = quote!(#pipe #acc = { let #ap = #acc; let #xp = #x; #b }; #end);
                self.loop_stack.pop();
                let l = self.iter_loop(k, None, src, quote!(let mut #acc = #init;), body, full);
                quote!({ #l #acc })
            }
            Terminal::Any(c) => {
                let v = self.apply1(&c, quote!(#x));
                let body = quote!(#pipe if #v { #res = true; break; } #end);
                self.extra_inv = Some((format!("!{res},\n"), format!("0 <= {i} <= {s}.len(),\n")));
                self.loop_stack.pop();
                let l = self.iter_loop(k, None, src, quote!(let mut #res = false;), body, format!("!{res} ==> {i} == {s}.len(),\n"));
                quote!({ #l #res })
            }
            Terminal::All(c) => {
                let v = self.apply1(&c, quote!(#x));
                let body = quote!(#pipe if !(#v) { #res = false; break; } #end);
                self.extra_inv = Some((format!("{res},\n"), format!("0 <= {i} <= {s}.len(),\n")));
                self.loop_stack.pop();
                let l = self.iter_loop(k, None, src, quote!(let mut #res = true;), body, format!("{res} ==> {i} == {s}.len(),\n"));
                quote!({ #l #res })
            }
            Terminal::Find(c) => {
                let v = self.apply1(&c, quote!(&#x));
                let body = quote!(#pipe if #v { #res = Some(#x); break; } #end);
                self.extra_inv = Some((format!("{res} is None,\n"), format!("0 <= {i} <= {s}.len(),\n")));
                self.loop_stack.pop();
                let it = self.lp(k, "it");
                let init = if n_ad == 0 { quote!(let mut #res = vnone(&#it);) } else { quote!(let mut #res = None;) };
                let l = self.iter_loop(k, None, src, init, body, format!("{res} is None ==> {i} == {s}.len(),\n"));
                quote!({ #l #res })
            }
            Terminal::FindMap(c) => {
                let v = self.apply1(&c, quote!(#x));
                let body = quote!(#pipe let r__ = #v; if r__.is_some() { #res = r__; break; } #end);
                self.extra_inv = Some((format!("{res} is None,\n"), format!("0 <= {i} <= {s}.len(),\n")));
                self.loop_stack.pop();
                let l = self.iter_loop(k, None, src, quote!(let mut #res = None;), body, format!("{res} is None ==> {i} == {s}.len(),\n"));
                quote!({ #l #res })
            }
            Terminal::Position(c) => {
                let v = self.apply1(&c, quote!(#x));
                let n = self.lp(k, "n");
                self.extra_inv = if n_ad == 0 {
                    Some((format!("{n} == {i},\n{res} is None,\n"), format!("{res} matches Some(p__) ==> p__ + 1 == {i} && {i} <= {s}.len(),\n")))
                } else {
                    Some((format!("{res} is None,\n"), String::new()))
                };
                let body = quote!(#pipe if #v { #res = Some(#n); break; } #n += 1; #end);
                self.loop_stack.pop();
                let l = self.iter_loop(
                    k,
                    None,
                    src,
                    quote!(let mut #res: Option<usize> = None; let mut #n: usize = 0;),
                    body,
                    format!("{res} is None ==> {i} == {s}.len(),\n"),
                );
                quote!({ #l #res })
            }
        };
        out
    }

    fn chain_push(&mut self, base: Expr, adapters: Vec<Adapter>, acc: Ident) -> TokenStream {
        let k = self.new_loop();
        let mut base = base;
        let src = self.iter_source(&mut base);
        self.loop_stack.push(LoopCtx { k, label: None, synthetic: true, has_break: false });
        let x = self.lp(k, "x");
        let mut pipe = self.hints(&format!("loop {k} start"));
        for a in adapters {
            match a {
                Adapter::Map(c) => {
                    let v = self.apply1(&c, quote!(#x));
                    pipe.extend(quote!(let #x = #v;));
                }
                Adapter::Filter(c) => {
                    let v = self.apply1(&c, quote!(&#x));
                    let h = self.hints(&format!("loop {k} end"));
                    pipe.extend(quote!(if !(#v) { #h continue; }));
                }
                Adapter::FilterMap(c) => {
                    let h = self.hints(&format!("loop {k} end"));
                    self.closure_none.push(quote!({ #h continue }));
                    let v = self.apply1(&c, quote!(#x));
                    self.closure_none.pop();
                    let h = self.hints(&format!("loop {k} end"));
                    pipe.extend(quote!(let #x = match #v { Some(y__) => y__, None => { #h continue; } };));
                }
                _ => self.unsupported.push("nested flat_map".into()),
            }
        }
        let end = self.hints(&format!("loop {k} end"));
        self.loop_stack.pop();
        self.iter_loop(k, None, src, quote!(), quote!(#pipe #acc.push(#x); #end), format!("{} == {}.len(),\n", self.lp(k, "i"), self.lp(k, "s")))
    }

    fn ty_ts(&mut self, t: TokenStream) -> TokenStream {
        match parse2::<Type>(t.clone()) {
            Ok(mut ty) => {
                self.visit_type_mut(&mut ty);
                ty.to_token_stream()
            }
            Err(_) => t,
        }
    }

    /// An expression used as a source of iteration.
    fn iter_source(&mut self, e: &mut Expr) -> TokenStream {
        let e2 = match e {
            Expr::Paren(p) => (*p.expr).clone(),
            e => e.clone(),
        };
        if let Expr::Range(r) = &e2 {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                let a = self.expr_ts((**a).clone());
                let b = self.expr_ts((**b).clone());
                return quote!(vrange(#a, #b));
            }
        }
        let t = self.expr_ts(e2);
        quote!(into_viter(#t))
    }

    fn for_loop(&mut self, f: ExprForLoop) -> TokenStream {
        let k = self.new_loop();
        let label = f.label.clone();
        let lname = label.as_ref().map(|l| l.name.ident.to_string());
        let kind = self.c.loop_kinds.get(&k).cloned();
        // mutable iteration over a place
        let mut place: Option<Expr> = None;
        match &*f.expr {
            Expr::Reference(r) if r.mutability.is_some() => place = Some((*r.expr).clone()),
            Expr::MethodCall(m) if m.method == "iter_mut" => place = Some((*m.receiver).clone()),
            _ => {}
        }
        let pat = f.pat.clone();
        if let Some(pl) = place {
            let pl = self.expr_ts(pl);
            self.loop_stack.push(LoopCtx { k, label: lname, synthetic: false, has_break: has_break(&f.body) });
            let start = self.hints(&format!("loop {k} start"));
            let body = self.block_stmts(&f.body);
            let end = self.hints(&format!("loop {k} end"));
            let hb = self.loop_stack.pop().unwrap().has_break;
            if kind.as_deref() == Some("mapmut") {
                let keys = quote!(#pl.vkeys_snapshot());
                let x = self.lp(k, "x");
                let (kp, vp) = match &*pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                    _ => {
                        self.unsupported.push("map iter_mut pattern".into());
                        ((*pat).clone(), (*pat).clone())
                    }
                };
                let b = quote!(let #kp = &#x; let #vp = #pl.get_mut(&#x).unwrap(); #start #body #end);
                let ens = if hb { String::new() } else { format!("{} == {}.len(),\n", self.lp(k, "i"), self.lp(k, "s")) };
                return self.iter_loop(k, label, keys, quote!(), b, ens);
            }
            let i = self.lp(k, "n");
            let j = self.lp(k, "j");
            let cl = self.loop_clause(k, &format!("0 <= {i} <= {}.len(),\n", pl.to_string()), "", &format!("{}.len() - {i}", pl.to_string()));
            let before = self.hints(&format!("loop {k} before"));
            let after = self.hints(&format!("loop {k} after"));
            return quote! {{
                let mut #i: usize = 0;
                #before
                #label while #i < #pl.len() {
                    #cl
                    let #j = #i;
                    #i += 1;
                    let #pat = &mut #pl[#j];
                    #start
                    #body
                    #end
                }
                #after
            }};
        }
        // closures between the source and the loop
        let (base, adapters) = match split_chain(&f.expr, true) {
            Some((b, a, Terminal::None)) => (b, a),
            _ => ((*f.expr).clone(), vec![]),
        };
        let mut base = base;
        let src = self.iter_source(&mut base);
        let x = self.lp(k, "x");
        self.loop_stack.push(LoopCtx { k, label: lname, synthetic: false, has_break: has_break(&f.body) });
        let direct = adapters.is_empty();
        let start = self.hints(&format!("loop {k} start"));
        let mut pipe = if direct { quote!() } else { start.clone() };
        let start = if direct { start } else { quote!() };
        for a in adapters {
            match a {
                Adapter::Map(c) => {
                    let v = self.apply1(&c, quote!(#x));
                    pipe.extend(quote!(let #x = #v;));
                }
                Adapter::Filter(c) => {
                    let v = self.apply1(&c, quote!(&#x));
                    let h = self.hints(&format!("loop {k} end"));
                    pipe.extend(quote!(if !(#v) { #h continue; }));
                }
                Adapter::FilterMap(c) => {
                    let h = self.hints(&format!("loop {k} end"));
                    self.closure_none.push(quote!({ #h continue }));
                    let v = self.apply1(&c, quote!(#x));
                    self.closure_none.pop();
                    let h = self.hints(&format!("loop {k} end"));
                    pipe.extend(quote!(let #x = match #v { Some(y__) => y__, None => { #h continue; } };));
                }
                _ => self.unsupported.push("flat_map in for".into()),
            }
        }
        let body = self.block_stmts(&f.body);
        let end = self.hints(&format!("loop {k} end"));
        let hb = self.loop_stack.pop().unwrap().has_break;
        let ens = if hb { String::new() } else { format!("{} == {}.len(),\n", self.lp(k, "i"), self.lp(k, "s")) };
        let l = self.iter_loop(k, label, src, quote!(), quote!(#pipe let #pat = #x; #start #body #end), ens);
        quote!({ #l })
    }

    /// The statements of a block, processed (tail expression of unit type gets a `;`).
    fn block_stmts(&mut self, b: &Block) -> TokenStream {
        let mut b = b.clone();
        self.visit_block_mut(&mut b);
        let mut out = TokenStream::new();
        for s in &b.stmts {
            match s {
                Stmt::Expr(e, None) => out.extend(quote!(#e;)),
                s => s.to_tokens(&mut out),
            }
        }
        out
    }

    fn opt_match(&mut self, m: &ExprMethodCall) -> Option<TokenStream> {
        let n = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let c = match n.as_str() {
            "map" | "and_then" | "filter" if args.len() == 1 => closure_of(&args[0])?,
            "map_or" if args.len() == 2 => closure_of(&args[1])?,
            "unwrap_or_else" if args.len() == 1 => closure_of(&args[0])?,
            _ => return None,
        };
        if self.c.opts.iter().any(|o| o == "keepopt") {
            return None;
        }
        let r = self.expr_ts((*m.receiver).clone());
        Some(match n.as_str() {
            "map" => {
                let v = self.apply1(&c, quote!(o__));
                quote!((match #r { Some(o__) => Some(#v), None => None }))
            }
            "and_then" => {
                let v = self.apply1(&c, quote!(o__));
                quote!((match #r { Some(o__) => #v, None => None }))
            }
            "filter" => {
                let v = self.apply1(&c, quote!(&o__));
                quote!((match #r { Some(o__) => if #v { Some(o__) } else { None }, None => None }))
            }
            "map_or" => {
                let d = self.expr_ts(args[0].clone());
                let v = self.apply1(&c, quote!(o__));
                quote!((match #r { Some(o__) => #v, None => #d }))
            }
            "unwrap_or_else" => match c {
                Closure::C(_, b) => {
                    let b = self.expr_ts(*b);
                    quote!((match #r { Some(o__) => o__, None => #b }))
                }
                Closure::Path(p) => quote!((match #r { Some(o__) => o__, None => #p() })),
            },
            _ => return None,
        })
    }

    fn set(&mut self, e: &mut Expr, t: TokenStream) {
        match parse2::<Expr>(t.clone()) {
            Ok(x) => *e = x,
            Err(err) => {
                self.unsupported.push(format!("internal: {err} in {t}"));
            }
        }
    }

    fn panic_ts(&mut self) -> TokenStream {
        self.panics += 1;
        let k = self.panics;
        match self.c.panics.get(&k).or(self.c.panics.get(&0)).cloned() {
            Some(cond) => {
                let cond = self.subst(&cond, None);
                let h = self.hint_text(format!("assert({cond}); // what the refusal is for"));
                quote!({ #h vdiverge() })
            }
            None => quote!(vunreachable()),
        }
    }

    fn count_call(&mut self, n: &str) {
        *self.calls.entry(n.to_string()).or_insert(0) += 1;
    }
}

fn has_break(b: &Block) -> bool {
    struct V(usize, bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                    self.0 += 1;
                    syn::visit::visit_expr(self, e);
                    self.0 -= 1;
                }
                Expr::Break(b) => {
                    if self.0 == 0 || b.label.is_some() {
                        self.1 = true
                    }
                }
                Expr::Closure(_) => {}
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(0, false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}

pub fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

impl<'a> VisitMut for X<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        map_type(t, &mut self.unsupported);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        map_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (si, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let _ = (si, n);
            // drop printing
            if let Stmt::Macro(m) = &s {
                let name = path_str(&m.mac.path);
                if matches!(name.as_str(), "println" | "print" | "eprintln" | "eprint") {
                    continue;
                }
            }
            if let Stmt::Item(Item::Use(u)) = &s {
                // `use a::b::Type::*;`
                let t = u.tree.to_token_stream().to_string().replace(' ', "");
                let seg: Vec<&str> = t.split("::").collect();
                if seg.len() >= 2 && seg[seg.len() - 1] == "*" && seg[seg.len() - 2].starts_with(char::is_uppercase) {
                    let id = Ident::new(seg[seg.len() - 2], Span::call_site());
                    out.push(parse_quote!(use #id::*;));
                }
                continue;
            }
            if let Stmt::Item(_) = s {
                continue; // nested items are hoisted
            }
            // macro statements become expressions
            if let Stmt::Macro(m) = &s {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                let diverges = matches!(path_str(&m.mac.path).as_str(), "panic" | "unreachable" | "todo" | "unimplemented");
                // a diverging last statement is the block's value; elsewhere it is a unit
                let semi = if diverges && si + 1 == n { None } else { m.semi_token };
                s = Stmt::Expr(e, semi);
            }
            if let Stmt::Local(l) = &s {
                // `let _ = ...;` of a literal does nothing
                if matches!(l.pat, Pat::Wild(_)) {
                    if let Some(i) = &l.init {
                        if matches!(*i.expr, Expr::Lit(_)) {
                            continue;
                        }
                    }
                }
            }
            let before = self.calls.clone();
            let lets_before = self.lets.clone();
            if let Stmt::Local(l) = &s {
                let mut names = vec![];
                collect_pat(&l.pat, &mut names);
                for nm in names {
                    *self.lets.entry(nm).or_insert(0) += 1;
                }
            }
            let splice = match &s {
                Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _) => true,
                Stmt::Expr(Expr::MethodCall(m), _) => m.method == "retain",
                Stmt::Local(l) => match &l.init {
                    Some(i) if i.diverge.is_none() => matches!(&*i.expr, Expr::MethodCall(_)),
                    _ => false,
                },
                _ => false,
            };
            visit_mut::visit_stmt_mut(self, &mut s);
            let mut pre = TokenStream::new();
            let mut post = TokenStream::new();
            for i in 0..self.c.hints.len() {
                if self.used_hints[i] {
                    continue;
                }
                let a: Vec<String> = self.c.hints[i].0.split_whitespace().map(String::from).collect();
                if a.len() >= 3 && (a[0] == "after" || a[0] == "before") && (a[1] == "call" || a[1] == "let") {
                    let k: usize = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
                    let (b0, b1) = if a[1] == "call" {
                        (*before.get(&a[2]).unwrap_or(&0), *self.calls.get(&a[2]).unwrap_or(&0))
                    } else {
                        (*lets_before.get(&a[2]).unwrap_or(&0), *self.lets.get(&a[2]).unwrap_or(&0))
                    };
                    if b0 < k && k <= b1 {
                        self.used_hints[i] = true;
                        let t = self.subst(&self.c.hints[i].1.clone(), None);
                        let h = self.hint_text(t);
                        if a[0] == "after" {
                            post.extend(h);
                        } else {
                            pre.extend(h);
                        }
                    }
                }
            }
            if !pre.is_empty() {
                out.extend(parse_stmts(pre));
            }
            if splice {
                match &mut s {
                    Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
                        out.extend(std::mem::take(&mut b.block.stmts));
                        if let Some(Stmt::Expr(Expr::Loop(_) | Expr::While(_), _)) = out.last() {
                            // a loop as the last statement keeps the unit value
                        }
                        if !post.is_empty() {
                            out.extend(parse_stmts(post));
                        }
                        continue;
                    }
                    Stmt::Local(l) => {
                        if let Some(i) = &mut l.init {
                            if let Expr::Block(b) = &mut *i.expr {
                                if b.label.is_none() {
                                    let mut st = std::mem::take(&mut b.block.stmts);
                                    if let Some(Stmt::Expr(last, None)) = st.pop() {
                                        out.extend(st);
                                        *i.expr = last;
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            if !post.is_empty() {
                match &s {
                    Stmt::Expr(e, None) => {
                        // a tail expression: name its value so that the hint can follow it
                        let e = e.clone();
                        if is_unit_like(&e) {
                            out.push(Stmt::Expr(e, Some(Default::default())));
                            out.extend(parse_stmts(post));
                        } else {
                            self.tmp += 1;
                            let t = format_ident!("t{}__", self.tmp);
                            out.extend(parse_stmts(quote!(let #t = #e;)));
                            out.extend(parse_stmts(post));
                            out.push(Stmt::Expr(parse_quote!(#t), None));
                        }
                    }
                    _ => {
                        out.push(s);
                        out.extend(parse_stmts(post));
                    }
                }
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `C::from_iter(i)` is `i.collect::<C>()`
        if let Expr::Call(c) = &*e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if let (Some(t @ ("BTreeMap" | "BTreeSet" | "HashSet" | "Vec" | "IndexSet")), 1) = (f.strip_suffix("::from_iter"), c.args.len()) {
                if let Expr::MethodCall(m) = &c.args[0] {
                    let t = format_ident!("{t}");
                    let g = if t == "BTreeMap" { quote!(<_, _>) } else { quote!(<_>) };
                    *e = parse_quote!(#m.collect::<#t #g>());
                }
            }
        }
        // iterator chains with closures
        if let Expr::MethodCall(_) = e {
            if let Some((b, a, t)) = split_chain(e, false) {
                let ts = self.chain(b, a, t);
                self.set(e, ts);
                return;
            }
            if let Expr::MethodCall(m) = &*e {
                let m = m.clone();
                let nm = m.method.to_string();
                // &mut through ManuallyDrop etc. are plain method renames below
                if let Some(ts) = self.opt_match(&m) {
                    self.set(e, ts);
                    return;
                }
                if nm == "or_insert_with" {
                    if let Some(Closure::Path(f)) = m.args.first().and_then(closure_of) {
                        let r = self.expr_ts((*m.receiver).clone());
                        let f = self.expr_ts(f);
                        self.count_call("or_insert_with");
                        self.set(e, quote!(#r.or_insert(#f())));
                        return;
                    }
                }
                if nm == "retain" && m.args.len() == 1 {
                    if let Some(c) = closure_of(&m.args[0]) {
                        let v = self.expr_ts((*m.receiver).clone());
                        let k = self.new_loop();
                        self.loop_stack.push(LoopCtx { k, label: None, synthetic: true, has_break: false });
                        let start = self.hints(&format!("loop {k} start"));
                        let x = self.lp(k, "x");
                        let b = self.apply1(&c, quote!(&#x));
                        let end = self.hints(&format!("loop {k} end"));
                        self.loop_stack.pop();
                        let (i, ss) = (self.lp(k, "i"), self.lp(k, "s"));
                        let l = self.iter_loop(
                            k,
                            None,
                            quote!(vtake(&mut *(&mut #v)).vinto_iter()),
                            quote!(),
                            quote!(#start if #b { #v.push(#x); } #end),
                            format!("{i} == {ss}.len(),\n"),
                        );
                        self.set(e, quote!({ #l }));
                        return;
                    }
                }
                if nm == "push_str" && m.args.len() == 1 {
                    // `x.push_str(&format!(..))` appends the pieces to `x`
                    if let Expr::Reference(r) = &m.args[0] {
                        if let Expr::Macro(mm) = &*r.expr {
                            if path_str(&mm.mac.path) == "format" {
                                let t = mm.mac.tokens.clone();
                                let d = &m.receiver;
                                self.count_call("push_str");
                                match crate::fmt::format_macro(self, "write", quote!(#d, #t)) {
                                    Ok(t) => self.set(e, quote!({ #t; })),
                                    Err(x) => self.unsupported.push(x),
                                }
                                return;
                            }
                        }
                    }
                }
                if nm == "expect" {
                    let r = self.expr_ts((*m.receiver).clone());
                    self.count_call("unwrap");
                    self.set(e, quote!(#r.unwrap()));
                    return;
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                let ts = self.for_loop(f);
                let blk: Result<Expr> = parse2(ts.clone());
                match blk {
                    Ok(x) => *e = x,
                    Err(_) => self.set(e, quote!({ #ts })),
                }
            }
            Expr::While(w) => {
                let w = w.clone();
                let k = self.new_loop();
                let label = w.label.clone();
                let lname = label.as_ref().map(|l| l.name.ident.to_string());
                let cond = (*w.cond).clone();
                let before = self.hints(&format!("loop {k} before"));
                let after = self.hints(&format!("loop {k} after"));
                let ts = if let Expr::Let(l) = &cond {
                    let scrut = self.expr_ts((*l.expr).clone());
                    let pat = &l.pat;
                    self.loop_stack.push(LoopCtx { k, label: lname, synthetic: false, has_break: true });
                    let start = self.hints(&format!("loop {k} start"));
                    let body = self.block_stmts(&w.body);
                    let end = self.hints(&format!("loop {k} end"));
                    self.loop_stack.pop();
                    let head = self.hints(&format!("loop {k} head"));
                    let exit = self.hints(&format!("loop {k} exit"));
                    let cl = self.loop_clause(k, "", "", "");
                    quote!({ #before #label loop { #cl #head match #scrut { #pat => { #start #body #end } _ => { #exit break; } } } #after })
                } else {
                    let c = self.expr_ts(cond);
                    self.loop_stack.push(LoopCtx { k, label: lname, synthetic: false, has_break: has_break(&w.body) });
                    let start = self.hints(&format!("loop {k} start"));
                    let body = self.block_stmts(&w.body);
                    let end = self.hints(&format!("loop {k} end"));
                    self.loop_stack.pop();
                    let cl = self.loop_clause(k, "", "", "");
                    quote!({ #before #label while #c { #cl #start #body #end } #after })
                };
                self.set(e, ts);
            }
            Expr::Loop(w) => {
                let w = w.clone();
                let k = self.new_loop();
                let label = w.label.clone();
                let lname = label.as_ref().map(|l| l.name.ident.to_string());
                let before = self.hints(&format!("loop {k} before"));
                let after = self.hints(&format!("loop {k} after"));
                self.loop_stack.push(LoopCtx { k, label: lname, synthetic: false, has_break: true });
                let start = self.hints(&format!("loop {k} start"));
                let body = self.block_stmts(&w.body);
                let end = self.hints(&format!("loop {k} end"));
                self.loop_stack.pop();
                let cl = self.loop_clause(k, "", "", "");
                self.set(e, quote!({ #before #label loop { #cl #start #body #end } #after }));
            }
            Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => {
                let ix = ix.clone();
                let b = self.expr_ts((*ix.expr).clone());
                if let Expr::Range(r) = &*ix.index {
                    let a = match &r.start {
                        Some(a) => self.expr_ts((**a).clone()),
                        None => quote!(0),
                    };
                    match &r.end {
                        None => self.set(e, quote!((*vslice_from(&#b, #a)))),
                        Some(z) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                            let z = self.expr_ts((**z).clone());
                            self.set(e, quote!((*vslice(&#b, #a, #z))))
                        }
                        _ => self.unsupported.push("slice range".into()),
                    }
                }
            }
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                self.visit_expr_mut(e);
            }
            Expr::Continue(c) => {
                let lbl = c.label.clone();
                let k = match &lbl {
                    Some(l) => self.loop_stack.iter().rev().find(|x| x.label.as_deref() == Some(&l.ident.to_string())).map(|x| x.k),
                    None => self.loop_stack.iter().rev().find(|x| !x.synthetic).map(|x| x.k),
                };
                if let Some(k) = k {
                    let h = self.hints_k(&format!("loop {k} end"), k);
                    if !h.is_empty() {
                        let cont = e.clone();
                        self.set(e, quote!({ #h #cont; }));
                    }
                }
            }
            Expr::Break(c) => {
                let lbl = c.label.clone();
                let k = match &lbl {
                    Some(l) => self.loop_stack.iter().rev().find(|x| x.label.as_deref() == Some(&l.ident.to_string())).map(|x| x.k),
                    None => self.loop_stack.iter().rev().find(|x| !x.synthetic).map(|x| x.k),
                };
                if let Some(k) = k {
                    let h = self.hints_k(&format!("loop {k} break"), k);
                    if !h.is_empty() {
                        let cont = e.clone();
                        self.set(e, quote!({ #h #cont; }));
                    }
                }
            }
            Expr::Return(r) => {
                if self.closure_depth() > 0 {
                    self.unsupported.push("return inside a closure".into());
                }
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                }
                let x = r.expr.clone();
                let h = self.hints("end");
                if !h.is_empty() {
                    match x {
                        Some(x) => self.set(e, quote!({ let r__ = #x; #h return r__; })),
                        None => self.set(e, quote!({ #h return; })),
                    }
                }
            }
            Expr::Try(t) => {
                let x = self.expr_ts((*t.expr).clone());
                if let Some(n) = self.closure_none.last().cloned() {
                    self.set(e, quote!((match #x { Some(q__) => q__, None => #n })));
                } else {
                    match self.ret_option {
                        RetKind::Option => {
                            let h = self.hints("end");
                            self.set(e, quote!((match #x { Some(q__) => q__, None => { let r__ = None; #h return r__; } })))
                        }
                        RetKind::Result => self.set(e, quote!((match #x { Ok(q__) => q__, Err(e__) => { return Err(e__); } }))),
                        _ => self.unsupported.push("?".into()),
                    }
                }
            }
            // `x += y` takes `y` by value or by reference
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) && matches!(&*b.right, Expr::Path(p) if p.path.get_ident().is_some()) => {
                let r = &b.right;
                b.right = Box::new(parse_quote!(vval(#r)));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let ne = matches!(b.op, BinOp::Ne(_));
                let native = is_lit(&b.left) || is_lit(&b.right);
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                if native {
                    return;
                }
                let (l, r) = (b.left.clone(), b.right.clone());
                let t = quote!(veq(&(#l), &(#r)));
                if ne {
                    self.set(e, quote!((!#t)));
                } else {
                    self.set(e, t);
                }
            }
            Expr::Macro(m) => {
                let name = path_str(&m.mac.path);
                let tokens = m.mac.tokens.clone();
                match name.as_str() {
                    "println" | "print" | "eprintln" | "eprint" => self.set(e, quote!(())),
                    "assert" | "debug_assert" => {
                        let args = parse_args(tokens);
                        let a = self.expr_ts(args[0].clone());
                        self.set(e, quote!(vassert(#a)));
                    }
                    "debug_assert_eq" | "assert_eq" => {
                        let args = parse_args(tokens);
                        let a = self.expr_ts(args[0].clone());
                        let b = self.expr_ts(args[1].clone());
                        self.set(e, quote!(vassert(veq(&(#a), &(#b)))));
                    }
                    "panic" => {
                        let t = self.panic_ts();
                        self.set(e, t);
                    }
                    "todo" | "unimplemented" | "unreachable" => self.set(e, quote!(vunreachable())),
                    "vec" => {
                        let args = parse_args(tokens);
                        let args: Vec<TokenStream> = args.into_iter().map(|a| self.expr_ts(a)).collect();
                        self.set(e, quote!(vec![#(#args),*]));
                    }
                    "matches" => {
                        // matches!(e, pat [if guard])
                        struct M {
                            e: Expr,
                            p: Pat,
                            g: Option<Expr>,
                        }
                        impl parse::Parse for M {
                            fn parse(i: parse::ParseStream) -> Result<Self> {
                                let e = i.parse()?;
                                i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.parse::<Option<Token![if]>>()?.is_some() { Some(i.parse()?) } else { None };
                                let _ = i.parse::<Option<Token![,]>>()?;
                                Ok(M { e, p, g })
                            }
                        }
                        match parse2::<M>(tokens) {
                            Ok(mut m) => {
                                self.visit_pat_mut(&mut m.p);
                                let x = self.expr_ts(m.e);
                                let p = m.p;
                                let g = m.g.map(|g| {
                                    let g = self.expr_ts(g);
                                    quote!(if #g)
                                });
                                self.set(e, quote!((match #x { #p #g => true, _ => false })));
                            }
                            Err(_) => self.unsupported.push("matches!".into()),
                        }
                    }
                    "format" | "write" | "writeln" => {
                        let t = crate::fmt::format_macro(self, &name, tokens);
                        match t {
                            Ok(t) => self.set(e, t),
                            Err(m) => self.unsupported.push(m),
                        }
                    }
                    _ => self.unsupported.push(format!("macro {name}!")),
                }
            }
            Expr::Lit(l) => {
                if let Lit::Str(_) = &l.lit {
                    let l = l.clone();
                    self.set(e, quote!(vlit(#l)));
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if let Some(t) = &mut m.turbofish {
                    let mut args = t.args.clone();
                    for a in args.iter_mut() {
                        if let GenericArgument::Type(t) = a {
                            self.visit_type_mut(t);
                        }
                    }
                    t.args = args;
                }
                self.count_call(&n);
                let ren = match n.as_str() {
                    "iter" => Some("viter"),
                    "into_iter" => Some("vinto_iter"),
                    "chars" => Some("vchars"),
                    "clone" => Some("vclone"),
                    "cloned" | "copied" => Some("vcloned"),
                    "get" => Some("vget"),
                    "first" => Some("vfirst"),
                    "last" => Some("vlast"),
                    "extend" => Some("vextend"),
                    "cmp" => Some("vcmp"),
                    "eq" => Some("veq_m"),
                    "to_string" => Some("vto_string"),
                    "unwrap_unchecked" => Some("unwrap"),
                    "contains" => Some("vcontains"),
                    "is_empty" => Some("vis_empty"),
                    "join" => Some("vjoin"),
                    "as_ref" => Some("vas_ref"),
                    "as_str" => Some("vas_str"),
                    "collect" => Some("vcollect"),
                    "into" => Some("vinto"),
                    "remove" => Some("vremove"),
                    "truncate" => Some("vtruncate"),
                    "set" => Some("vset"),
                    "capacity" => Some("vcapacity"),
                    _ => None,
                };
                // a function of the crate that is called `iter` and has arguments is not the iterator
                let ren = if n == "iter" && !m.args.is_empty() { None } else { ren };
                if let Some(r) = ren {
                    m.method = Ident::new(r, Span::call_site());
                }
            }
            // a reference coerced to what is expected
            Expr::Cast(c) if matches!(&*c.ty, Type::Reference(_)) => {
                let x = (*c.expr).clone();
                *e = x;
                self.visit_expr_mut(e);
            }
            // arms that coerce to `&str` like the literal among them
            Expr::Match(m) if m.arms.iter().any(|a| matches!(&*a.body, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)))) => {
                for a in m.arms.iter_mut() {
                    if let Expr::Path(p) = &*a.body {
                        a.body = Box::new(parse_quote!(vstr(#p)));
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                let last = f.rsplit("::").next().unwrap_or("").to_string();
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Call(c) = e {
                    // these take a `&str`, which a reference to one coerces to
                    if matches!(last.as_str(), "StrLit" | "Regex" | "Ident" | "escape_ts_str") && c.args.len() == 1 {
                        let a = c.args[0].clone();
                        c.args[0] = parse_quote!(vstr(#a));
                    }
                }
                self.count_call(&last);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

impl<'a> X<'a> {
    fn closure_depth(&self) -> usize {
        self.loop_stack.iter().filter(|l| l.synthetic).count()
    }
    fn hints_k(&mut self, anchor: &str, k: usize) -> TokenStream {
        self.loop_stack.push(LoopCtx { k, label: None, synthetic: false, has_break: false });
        let h = self.hints(anchor);
        self.loop_stack.pop();
        h
    }
}

fn is_unit_like(e: &Expr) -> bool {
    matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Assign(_))
}

fn is_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => !matches!(l.lit, Lit::Str(_)),
        Expr::Unary(u) => is_lit(&u.expr),
        _ => false,
    }
}

pub fn parse_args(t: TokenStream) -> Vec<Expr> {
    use syn::parse::Parser;
    punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t).map(|p| p.into_iter().collect()).unwrap_or_default()
}

pub fn parse_stmts(t: TokenStream) -> Vec<Stmt> {
    let b: Block = parse2(quote!({ #t })).expect("stmts");
    b.stmts
}

pub fn collect_pat(p: &Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_pat_ident(&mut self, i: &'b PatIdent) {
            let n = i.ident.to_string();
            if n.chars().next().map_or(false, |c| !c.is_uppercase()) {
                self.0.push(n);
            }
            if let Some((_, p)) = &i.subpat {
                self.visit_pat(p);
            }
        }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}

pub fn map_type(t: &mut Type, unsupported: &mut Vec<String>) {
    struct M<'a>(&'a mut Vec<String>);
    impl<'a> VisitMut for M<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Reference(r) = t {
                if let Type::Path(p) = &*r.elem {
                    if path_str(&p.path) == "str" {
                        *t = match (&r.lifetime, r.mutability) {
                            (Some(l), None) => parse_quote!(Str<#l>),
                            (None, None) => parse_quote!(Str<'_>),
                            (Some(l), Some(_)) => parse_quote!(Str<#l>),
                            (None, Some(_)) => parse_quote!(Str<'_>),
                        };
                        return;
                    }
                }
            }
            if let Type::Reference(r) = t {
                if let Type::Slice(_) = &*r.elem {}
            }
            visit_mut::visit_type_mut(self, t);
        }
        fn visit_path_mut(&mut self, p: &mut Path) {
            map_path(p);
            visit_mut::visit_path_mut(self, p);
        }
    }
    M(unsupported).visit_type_mut(t);
}

thread_local! {
    /// associated constants of generic types: emitted as constants of the module
    pub static LIFTED: std::cell::RefCell<std::collections::BTreeSet<String>> = Default::default();
}

pub fn map_path(p: &mut Path) {
    if p.segments.len() < 2 {
        return;
    }
    if LIFTED.with(|l| l.borrow().contains(&p.segments.last().unwrap().ident.to_string())) {
        let l = p.segments.last().cloned().unwrap();
        p.leading_colon = None;
        p.segments = std::iter::once(l).collect();
        return;
    }
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let first = s[0].as_str();
    if matches!(first, "std" | "core") {
        // keep from the type on
        let strip = match s[1].as_str() {
            "collections" | "cmp" | "iter" | "mem" | "fmt" | "slice" | "string" | "vec" | "ops" => {
                if s.len() > 3 && (s[2] == "btree_map" || s[2] == "hash_map") {
                    3
                } else {
                    2
                }
            }
            _ => 1,
        };
        let segs: Vec<PathSegment> = p.segments.iter().skip(strip).cloned().collect();
        p.leading_colon = None;
        p.segments = segs.into_iter().collect();
        if s[1] == "fmt" && s.len() == 3 && s[2] == "Error" {
            p.segments[0].ident = Ident::new("FmtError", Span::call_site());
        }
        if s[1] == "fmt" && s.len() == 3 && s[2] == "Result" && p.segments[0].arguments.is_none() {
            p.segments[0].ident = Ident::new("FmtResult", Span::call_site());
        }
        if s[1] == "iter" && s[2] == "once" {
            p.segments[0].ident = Ident::new("vonce", Span::call_site());
        }
        if s[1] == "slice" && s[2] == "Iter" || s[2] == "btree_map" && (s.last().unwrap() == "Iter" || s.last().unwrap() == "Keys") {
            let keys = s.last().unwrap() == "Keys";
            p.segments.last_mut().unwrap().ident = Ident::new("SeqIter", Span::call_site());
            // the items are references
            if let PathArguments::AngleBracketed(a) = &mut p.segments.last_mut().unwrap().arguments {
                let lt = a.args.iter().find_map(|a| if let GenericArgument::Lifetime(l) = a { Some(l.clone()) } else { None });
                let tys: Vec<Type> = a
                    .args
                    .iter()
                    .filter_map(|a| if let GenericArgument::Type(t) = a { Some(parse_quote!(& #lt #t)) } else { None })
                    .collect();
                let t: Type = if tys.len() == 1 || keys { tys[0].clone() } else { parse_quote!((#(#tys),*)) };
                a.args = std::iter::once(GenericArgument::Type(t)).collect();
            }
        }
    } else if matches!(first, "crate" | "self" | "super" | "ts" | "table" | "item" | "first" | "dfa" | "nfa" | "lex" | "option_usize" | "codegen" | "lalr" | "parser") {
        // the last module is in scope by name or its item is: keep the last one or two segments
        let n = p.segments.len();
        let keep = if n >= 2 && s[n - 2].chars().next().unwrap().is_uppercase() { 2 } else { 1 };
        let segs: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
        p.segments = segs.into_iter().collect();
    } else if first == "cmp" {
        let segs: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
        p.segments = segs.into_iter().collect();
    }
}
