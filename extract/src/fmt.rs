//! `format!`, `write!` and `writeln!`: a sequence of appends, in order.
use crate::xform::{parse_args, X};
use proc_macro2::TokenStream;
use quote::quote;
use syn::*;

pub enum Piece {
    Lit(String),
    Arg(usize),
    Named(String),
}

pub fn pieces(f: &str) -> std::result::Result<Vec<Piece>, String> {
    let mut out = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    let mut arg = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let j = cs[i..].iter().position(|c| *c == '}').ok_or("format")? + i;
                let name: String = cs[i + 1..j].iter().collect();
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                if name.is_empty() {
                    out.push(Piece::Arg(arg));
                    arg += 1;
                } else if let Ok(n) = name.parse::<usize>() {
                    out.push(Piece::Arg(n));
                } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    out.push(Piece::Named(name));
                } else {
                    return Err(format!("format spec {{{name}}}"));
                }
                i = j + 1;
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Ok(out)
}

pub fn format_macro(x: &mut X, name: &str, tokens: TokenStream) -> std::result::Result<TokenStream, String> {
    use syn::visit_mut::VisitMut;
    let mut args = parse_args(tokens);
    let dest = if name == "format" {
        None
    } else {
        if args.is_empty() {
            return Err("write!".into());
        }
        let mut d = args.remove(0);
        x.visit_expr_mut(&mut d);
        Some(d)
    };
    let fstr = match args.first() {
        Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
        None => String::new(),
        _ => return Err("format string".into()),
    };
    if !args.is_empty() {
        args.remove(0);
    }
    let mut ps = pieces(&fstr)?;
    if name == "writeln" {
        match ps.last_mut() {
            Some(Piece::Lit(l)) => l.push('\n'),
            _ => ps.push(Piece::Lit("\n".into())),
        }
    }
    let mut body = TokenStream::new();
    let target = match &dest {
        None => quote!(f__),
        Some(d) => quote!((#d)),
    };
    // arguments are evaluated once, before anything is written
    let mut binds = TokenStream::new();
    for (i, a) in args.iter().enumerate() {
        let mut a = a.clone();
        x.visit_expr_mut(&mut a);
        let id = quote::format_ident!("a{}__", i);
        binds.extend(quote!(let #id = &(#a);));
    }
    for p in ps {
        match p {
            Piece::Lit(l) => body.extend(quote!(#target.put(vlit(#l));)),
            Piece::Arg(i) => {
                if i >= args.len() {
                    return Err("format arguments".into());
                }
                let id = quote::format_ident!("a{}__", i);
                body.extend(quote!(#id.vdisplay(&mut *#target.sink());));
            }
            Piece::Named(n) => {
                let id: Expr = parse_str(&n).map_err(|e| e.to_string())?;
                body.extend(quote!((#id).vdisplay(&mut *#target.sink());));
            }
        }
    }
    Ok(match dest {
        None => quote!({ #binds let mut f__ = String::new(); #body f__ }),
        Some(_) => quote!({ #binds #body vok() }),
    })
}
