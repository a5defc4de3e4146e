//! The action code of a LALRPOP grammar as Rust functions, one per alternative, and their contracts.
//!
//! LALRPOP runs the action of an alternative on the values of its symbols. So the function of an
//! alternative takes, for each symbol, the tokens it was read from (ghost) and, if the action uses
//! it, its value; it requires that they belong together (`reads_X` for a non-terminal `X`), and
//! ensures that the joined tokens and the action's value do. The action code is verbatim; `<>` is
//! replaced by the names LALRPOP puts there; an alternative without an action hands on its value.
use proc_macro2::{Delimiter, TokenStream, TokenTree as T};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Sym {
    Lit(String),
    Re(String),
    Nt(String),
    Mac(String, Vec<Sym>),
    Group(Vec<Bound>),
    Rep(Box<Sym>, char),
}
#[derive(Clone, Debug)]
struct Bound {
    selected: bool,
    mutable: bool,
    name: Option<String>,
    sym: Sym,
}
#[derive(Clone, Debug)]
struct Alt {
    syms: Vec<Bound>,
    action: Option<Vec<T>>,
}
#[derive(Clone, Debug)]
struct Rule {
    params: Vec<String>,
    ty: Vec<T>,
    alts: Vec<Alt>,
}

fn text(v: &[T]) -> String {
    v.iter().cloned().collect::<TokenStream>().to_string()
}
fn punct(t: Option<&T>, c: char) -> bool {
    matches!(t, Some(T::Punct(p)) if p.as_char() == c)
}
fn word(t: Option<&T>) -> Option<String> {
    match t {
        Some(T::Ident(i)) => Some(i.to_string()),
        _ => None,
    }
}
fn arrow(v: &[T], i: usize) -> bool {
    punct(v.get(i), '=') && punct(v.get(i + 1), '>')
}

struct P<'a> {
    v: &'a [T],
    i: usize,
    macros: &'a [String],
}
type R<X> = Result<X, String>;
impl<'a> P<'a> {
    fn peek(&self) -> Option<&T> {
        self.v.get(self.i)
    }
    fn sym(&mut self) -> R<Sym> {
        let t = self.peek().cloned().ok_or("symbol expected")?;
        self.i += 1;
        let mut s = match &t {
            T::Literal(l) => {
                let s = l.to_string();
                if s.starts_with('r') {
                    Sym::Re(s)
                } else {
                    Sym::Lit(s)
                }
            }
            T::Ident(id) => {
                let n = id.to_string();
                if self.macros.contains(&n) && punct(self.peek(), '<') {
                    self.i += 1;
                    let mut args = vec![];
                    while !punct(self.peek(), '>') {
                        args.push(self.sym()?);
                        if punct(self.peek(), ',') {
                            self.i += 1;
                        }
                    }
                    self.i += 1;
                    Sym::Mac(n, args)
                } else {
                    Sym::Nt(n)
                }
            }
            T::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                let inner: Vec<T> = g.stream().into_iter().collect();
                let mut p = P { v: &inner, i: 0, macros: self.macros };
                Sym::Group(p.syms()?)
            }
            _ => return Err(format!("symbol {t} not supported")),
        };
        while let Some(T::Punct(p)) = self.peek() {
            let c = p.as_char();
            if !"?*+".contains(c) {
                break;
            }
            s = Sym::Rep(Box::new(s), c);
            self.i += 1;
        }
        Ok(s)
    }
    fn bound(&mut self) -> R<Bound> {
        if !punct(self.peek(), '<') {
            return Ok(Bound { selected: false, mutable: false, name: None, sym: self.sym()? });
        }
        self.i += 1;
        let mut b = Bound { selected: true, mutable: false, name: None, sym: Sym::Group(vec![]) };
        if word(self.peek()).as_deref() == Some("mut") {
            b.mutable = true;
            self.i += 1;
        }
        if let (Some(n), true) = (word(self.peek()), punct(self.v.get(self.i + 1), ':')) {
            b.name = Some(n);
            self.i += 2;
        }
        b.sym = self.sym()?;
        if !punct(self.peek(), '>') {
            return Err("`>` expected".into());
        }
        self.i += 1;
        Ok(b)
    }
    fn syms(&mut self) -> R<Vec<Bound>> {
        let mut out = vec![];
        while self.peek().is_some() && !punct(self.peek(), ',') && !arrow(self.v, self.i) {
            out.push(self.bound()?);
        }
        Ok(out)
    }
    fn alts(&mut self) -> R<Vec<Alt>> {
        let mut out = vec![];
        while self.peek().is_some() {
            let syms = self.syms()?;
            let mut action = None;
            if arrow(self.v, self.i) {
                self.i += 2;
                let s = self.i;
                while self.peek().is_some() && !punct(self.peek(), ',') {
                    self.i += 1;
                }
                if punct(self.v.get(s), '?') || punct(self.v.get(s), '@') {
                    return Err("fallible and location actions are not supported".into());
                }
                action = Some(self.v[s..self.i].to_vec());
            }
            if punct(self.peek(), ',') {
                self.i += 1;
            }
            out.push(Alt { syms, action });
        }
        Ok(out)
    }
}

struct Grammar {
    generics: String,
    params: String,
    rules: BTreeMap<String, Rule>,
    order: Vec<String>,
}

fn grammar(ts: TokenStream) -> R<Grammar> {
    let v: Vec<T> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() && word(v.get(i)).as_deref() != Some("grammar") {
        i += 1;
    }
    i += 1;
    let s = i;
    while i < v.len() && !matches!(&v[i], T::Group(_)) && !punct(v.get(i), ';') {
        i += 1;
    }
    let generics = text(&v[s..i]);
    let mut params = String::new();
    if let Some(T::Group(g)) = v.get(i) {
        params = g.stream().to_string();
        i += 1;
    }
    if !punct(v.get(i), ';') {
        return Err("grammar header not understood".into());
    }
    i += 1;
    // the macros first: their uses look like selections
    let mut heads = vec![];
    while i < v.len() {
        if punct(v.get(i), ';') {
            i += 1;
            continue;
        }
        if punct(v.get(i), '#') {
            return Err("attributes are not supported".into());
        }
        if word(v.get(i)).as_deref() == Some("pub") {
            i += 1;
        }
        let name = word(v.get(i)).ok_or("name of a rule expected")?;
        if name == "match" || name == "extern" || name == "use" {
            return Err(format!("`{name}` is not supported"));
        }
        i += 1;
        let mut ps = vec![];
        if punct(v.get(i), '<') {
            i += 1;
            while !punct(v.get(i), '>') {
                ps.extend(word(v.get(i)));
                i += 1;
                if i >= v.len() {
                    return Err("`>` expected".into());
                }
            }
            i += 1;
        }
        if !punct(v.get(i), ':') {
            return Err(format!("type of {name} expected"));
        }
        i += 1;
        let s = i;
        while i < v.len() && !(punct(v.get(i), '=') && !arrow(&v, i)) {
            i += 1;
        }
        let ty = v[s..i].to_vec();
        i += 1;
        let body = match v.get(i) {
            Some(T::Group(g)) if g.delimiter() == Delimiter::Brace => {
                i += 1;
                g.stream().into_iter().collect::<Vec<T>>()
            }
            _ => {
                let s = i;
                while i < v.len() && !punct(v.get(i), ';') {
                    i += 1;
                }
                v[s..i].to_vec()
            }
        };
        heads.push((name, ps, ty, body));
    }
    let macros: Vec<String> = heads.iter().filter(|h| !h.1.is_empty()).map(|h| h.0.clone()).collect();
    let mut g = Grammar { generics, params, rules: BTreeMap::new(), order: vec![] };
    for (name, params, ty, body) in heads {
        let alts = P { v: &body, i: 0, macros: &macros }.alts().map_err(|e| format!("{name}: {e}"))?;
        g.order.push(name.clone());
        g.rules.insert(name, Rule { params, ty, alts });
    }
    // a rule that only hands on another symbol is that symbol
    let mut same: BTreeMap<String, Sym> = BTreeMap::new();
    for (n, r) in &g.rules {
        if let ([Alt { syms, action: None }], true) = (&r.alts[..], r.params.is_empty()) {
            if let [Bound { sym: s @ (Sym::Nt(_) | Sym::Mac(..)), .. }] = &syms[..] {
                same.insert(n.clone(), s.clone());
            }
        }
    }
    for _ in 0..same.len() {
        for r in g.rules.values_mut() {
            for a in &mut r.alts {
                for b in &mut a.syms {
                    b.sym = subst_sym(&b.sym, &same);
                }
            }
        }
    }
    g.order.retain(|n| !same.contains_key(n));
    Ok(g)
}

fn subst_sym(s: &Sym, m: &BTreeMap<String, Sym>) -> Sym {
    match s {
        Sym::Nt(n) => m.get(n).cloned().unwrap_or(s.clone()),
        Sym::Mac(n, a) => Sym::Mac(n.clone(), a.iter().map(|x| subst_sym(x, m)).collect()),
        Sym::Rep(x, c) => Sym::Rep(Box::new(subst_sym(x, m)), *c),
        Sym::Group(b) => Sym::Group(b.iter().map(|b| Bound { sym: subst_sym(&b.sym, m), ..b.clone() }).collect()),
        _ => s.clone(),
    }
}
fn subst_ty(v: &[T], m: &BTreeMap<String, String>) -> String {
    let mut out = vec![];
    for t in v {
        match t {
            T::Ident(i) if m.contains_key(&i.to_string()) => out.extend(m[&i.to_string()].parse::<TokenStream>().unwrap()),
            T::Group(g) => {
                let inner: Vec<T> = g.stream().into_iter().collect();
                let ts: TokenStream = subst_ty(&inner, m).parse().unwrap();
                out.push(T::Group(proc_macro2::Group::new(g.delimiter(), ts)));
            }
            _ => out.push(t.clone()),
        }
    }
    text(&out)
}

/// what a hint calls the parts of an alternative by their non-terminals, by function: the tokens of
/// the symbol `$y(X)`, those before it `$pre(X)`, its value `$v(X)`, the parts of a repetition of it
pub type Alias = BTreeMap<String, BTreeMap<String, String>>;
struct Gen<'a> {
    g: &'a Grammar,
    rust: String,
    specs: BTreeMap<String, String>,
    order: Vec<String>,
    todo: Vec<(String, Vec<Sym>)>,
    seen: Vec<String>,
    alias: Alias,
}
/// the value of a group: the selected symbol, or the only one
fn chosen(b: &[Bound]) -> R<usize> {
    let sel: Vec<usize> = (0..b.len()).filter(|i| b[*i].selected).collect();
    match (sel.len(), b.len()) {
        (1, _) => Ok(sel[0]),
        (0, 1) => Ok(0),
        _ => Err("a tuple as a value is not supported".into()),
    }
}
impl<'a> Gen<'a> {
    fn inst(&mut self, n: &str, args: &[Sym]) -> R<String> {
        let mut name = n.to_string();
        for a in args {
            name.push('_');
            name.push_str(&match a {
                Sym::Nt(x) => x.clone(),
                Sym::Mac(x, b) => self.inst(x, b)?,
                _ => return Err("this argument of a macro is not supported".into()),
            });
        }
        if !self.seen.contains(&name) {
            self.seen.push(name.clone());
            self.todo.push((n.into(), args.to_vec()));
        }
        Ok(name)
    }
    fn ty(&self, s: &Sym) -> R<String> {
        Ok(match s {
            Sym::Lit(_) | Sym::Re(_) => "&'ast str".into(),
            Sym::Nt(n) => text(&self.g.rules.get(n).ok_or(format!("no rule {n}"))?.ty),
            Sym::Mac(n, a) => {
                let r = self.g.rules.get(n).ok_or(format!("no rule {n}"))?;
                let mut m = BTreeMap::new();
                for (p, x) in r.params.iter().zip(a) {
                    m.insert(p.clone(), self.ty(x)?);
                }
                subst_ty(&r.ty, &m)
            }
            Sym::Group(b) => self.ty(&b[chosen(b)?].sym)?,
            Sym::Rep(x, '?') => format!("Option<{}>", self.ty(x)?),
            Sym::Rep(x, _) => format!("Vec<{}>", self.ty(x)?),
        })
    }
    /// the non-terminal a symbol is made of, or `text` for a pattern
    fn label(&mut self, s: &Sym) -> Option<String> {
        match s {
            Sym::Lit(_) => None,
            Sym::Re(_) => Some("text".into()),
            Sym::Nt(n) => Some(n.clone()),
            Sym::Mac(n, a) => self.inst(n, a).ok(),
            Sym::Group(b) => chosen(b).ok().and_then(|k| self.label(&b[k].sym)),
            Sym::Rep(x, _) => self.label(x),
        }
    }
    /// conditions that tie the tokens `y` to the value `v`; `extra` collects further ghost parameters
    fn tie(&mut self, s: &Sym, y: &str, v: Option<&str>, base: &str, extra: &mut Vec<(String, String)>, out: &mut Vec<String>) -> R<()> {
        match s {
            Sym::Group(b) if b.len() == 1 => return self.tie(&b[0].sym, y, v, base, extra, out),
            Sym::Lit(l) => {
                out.push(format!("{y} == seq![{l}@]"));
                if v.is_some() {
                    return Err("the value of a literal is not supported".into());
                }
            }
            Sym::Re(r) => {
                let v = v.ok_or("a pattern that is not selected is not supported")?;
                out.push(format!("{y} == seq![{v}@]"));
                out.push(format!("pattern({r}@, {v}@)"));
            }
            Sym::Nt(_) | Sym::Mac(..) => {
                let v = v.ok_or("a non-terminal that is not selected is not supported")?;
                let n = match s {
                    Sym::Nt(n) => self.inst(n, &[])?,
                    Sym::Mac(n, a) => self.inst(n, a)?,
                    _ => unreachable!(),
                };
                out.push(format!("reads_{n}({y}, {v})"));
            }
            Sym::Group(_) => return Err("a group that is not repeated is not supported".into()),
            Sym::Rep(x, '?') => match (&**x, v) {
                (Sym::Lit(l), None) => out.push(format!("{y} == Seq::<Seq<char>>::empty() || {y} == seq![{l}@]")),
                (Sym::Nt(_) | Sym::Mac(..), Some(v)) => {
                    let mut c = vec![];
                    self.tie(x, y, Some(&format!("({v}->0)")), base, extra, &mut c)?;
                    out.push(format!("match {v} {{ None => {y} == Seq::<Seq<char>>::empty(), Some(_) => {} }}", c.join(" && ")));
                }
                _ => return Err("this optional symbol is not supported".into()),
            },
            Sym::Rep(x, c) if matches!(&**x, Sym::Group(b) if b.len() == 1) => {
                let Sym::Group(b) = &**x else { unreachable!() };
                return self.tie(&Sym::Rep(Box::new(b[0].sym.clone()), *c), y, v, base, extra, out);
            }
            Sym::Rep(x, c) => {
                let v = v.ok_or("a repetition that is not selected is not supported")?;
                let p = format!("{base}_parts");
                extra.push((p.clone(), "Ghost<Seq<Seq<Seq<char>>>>".into()));
                out.push(format!("{p}@.len() == {v}@.len()"));
                out.push(format!("{y} == cat_toks({p}@)"));
                if *c == '+' {
                    out.push(format!("{v}@.len() >= 1"));
                }
                let mut cs = vec![];
                match &**x {
                    Sym::Nt(_) | Sym::Mac(..) => self.tie(x, &format!("(#[trigger] {p}@[i__])"), Some(&format!("{v}@[i__]")), base, extra, &mut cs)?,
                    Sym::Group(b) => {
                        let ch = chosen(b)?;
                        let q = format!("{base}_inner");
                        extra.push((q.clone(), "Ghost<Seq<Seq<Seq<char>>>>".into()));
                        out.push(format!("{q}@.len() == {p}@.len()"));
                        self.tie(&b[ch].sym, &format!("(#[trigger] {q}@[i__])"), Some(&format!("{v}@[i__]")), base, extra, &mut cs)?;
                        let mut sum = vec![];
                        for (k, s) in b.iter().enumerate() {
                            match &s.sym {
                                _ if k == ch => sum.push(format!("{q}@[i__]")),
                                Sym::Lit(l) => sum.push(format!("seq![{l}@]")),
                                _ => return Err("this group is not supported".into()),
                            }
                        }
                        out.push(format!("forall|i__: int| 0 <= i__ < {v}@.len() ==> #[trigger] {p}@[i__] == {}", sum.join(" + ")));
                    }
                    _ => return Err("this repetition is not supported".into()),
                }
                out.push(format!("forall|i__: int| 0 <= i__ < {v}@.len() ==> {}", cs.join(" && ")));
            }
        }
        Ok(())
    }
    fn alt(&mut self, name: &str, k: usize, rty: &str, a: &Alt) -> R<()> {
        let any = a.syms.iter().any(|b| b.selected);
        let mut params = vec![self.g.params.clone()];
        let (mut req, mut sum, mut vals) = (vec![], vec![], vec![]);
        let mut sel: Vec<String> = vec![];
        let mut lets = String::new();
        let mut alias = std::mem::take(&mut self.alias);
        let f = format!("{name}_{k}");
        for (i, b) in a.syms.iter().enumerate() {
            // a pattern has a text even if the action does not use it
            let used = b.selected || (!any && !matches!(b.sym, Sym::Lit(_)));
            let v = format!("x{i}");
            let y = format!("y{i}");
            let mut extra = vec![(y.clone(), "Ghost<Seq<Seq<char>>>".to_string())];
            let has_val = used || matches!(b.sym, Sym::Re(_));
            if has_val {
                vals.push(format!("{v}: {}", self.ty(&b.sym)?));
            }
            if used {
                let n = b.name.clone().unwrap_or(v.clone());
                if n != v || b.mutable {
                    lets.push_str(&format!("let {}{n} = {v}; ", if b.mutable { "mut " } else { "" }));
                }
                sel.push(n);
            }
            self.tie(&b.sym, &format!("{y}@"), has_val.then_some(&*v), &y, &mut extra, &mut req)?;
            params.extend(extra.into_iter().map(|(n, t)| format!("{n}: {t}")));
            if let Some(n) = self.label(&b.sym) {
                let m = alias.entry(f.clone()).or_default();
                let k = (2..).map(|k| format!("{n}{k}")).find(|n| !m.contains_key(&format!("$y({n})"))).unwrap();
                let n = if m.contains_key(&format!("$y({n})")) { k } else { n };
                m.insert(format!("$y({n})"), format!("{y}@"));
                m.insert(format!("$pre({n})"), if sum.is_empty() { "Seq::<Seq<char>>::empty()".into() } else { format!("({})", sum.join(" + ")) });
                m.insert(format!("$v({n})"), v.clone());
                m.insert(format!("$parts({n})"), format!("{y}_parts@"));
                m.insert(format!("$inner({n})"), format!("{y}_inner@"));
            }
            sum.push(format!("{y}@"));
        }
        params.extend(vals);
        let body = match &a.action {
            Some(t) => fill(t, &sel),
            None if sel.len() == 1 => sel[0].clone(),
            None => return Err("a tuple as a value is not supported".into()),
        };
        self.alias = alias;
        self.rust.push_str(&format!("pub fn {f}{}({}) -> {rty} {{ {lets}{body} }}\n", self.g.generics, params.join(", ")));
        let sum = if sum.is_empty() { "Seq::<Seq<char>>::empty()".to_string() } else { sum.join(" + ") };
        self.specs.insert(f.clone(), format!("    requires {},\n    ensures reads_{name}({sum}, r),\n", req.join(",\n        ")));
        self.order.push(f);
        Ok(())
    }
}
/// the action with `<>` replaced by the selected names
fn fill(v: &[T], sel: &[String]) -> String {
    let mut out: Vec<T> = vec![];
    let mut i = 0;
    while i < v.len() {
        if punct(v.get(i), '<') && punct(v.get(i + 1), '>') {
            out.extend(sel.join(", ").parse::<TokenStream>().unwrap());
            i += 2;
            continue;
        }
        match &v[i] {
            T::Group(g) => {
                let inner: Vec<T> = g.stream().into_iter().collect();
                let ts: TokenStream = fill(&inner, sel).parse().unwrap();
                out.push(T::Group(proc_macro2::Group::new(g.delimiter(), ts)));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    text(&out)
}

/// Rust text, the contracts by function, the functions in order
pub fn convert(t: &str) -> R<(String, BTreeMap<String, String>, Vec<String>, Alias)> {
    let g = grammar(t.parse::<TokenStream>().map_err(|e| e.to_string())?)?;
    let mut gen = Gen { g: &g, rust: String::new(), specs: BTreeMap::new(), order: vec![], todo: vec![], seen: vec![], alias: Alias::new() };
    for n in &g.order {
        if g.rules[n].params.is_empty() {
            gen.inst(n, &[])?;
        }
    }
    let mut k = 0;
    while k < gen.todo.len() {
        let (n, args) = gen.todo[k].clone();
        let name = gen.inst(&n, &args)?;
        let r = g.rules.get(&n).ok_or(format!("no rule {n}"))?;
        let s = if args.is_empty() { Sym::Nt(n.clone()) } else { Sym::Mac(n.clone(), args.clone()) };
        let rty = gen.ty(&s)?;
        let m: BTreeMap<String, Sym> = r.params.iter().cloned().zip(args.iter().cloned()).collect();
        for (j, a) in r.alts.iter().enumerate() {
            let a = Alt { syms: a.syms.iter().map(|b| Bound { sym: subst_sym(&b.sym, &m), ..b.clone() }).collect(), action: a.action.clone() };
            gen.alt(&name, j + 1, &rty, &a).map_err(|e| format!("{name}: {e}"))?;
        }
        k += 1;
    }
    Ok((gen.rust, gen.specs, gen.order, gen.alias))
}
