//! Grammar model, generators and the independent LR(1)/LALR(1)/CFG oracles.
use bumpalo::Bump;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use typelalr::parser::{ast, Grammar, Symbol};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum S {
    Lit(String),
    Nt(String),
    Rx(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Alt {
    pub syms: Vec<(Option<String>, S)>,
    pub code: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Group {
    pub name: String,
    pub start: bool,
    pub export: bool,
    pub ty: String,
    pub alts: Vec<Alt>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct G(pub Vec<Group>);

impl G {
    pub fn to_json(&self) -> Value {
        json!(self.0.iter().map(|g| json!({"name": g.name, "start": g.start, "export": g.export, "ty": g.ty,
            "alts": g.alts.iter().map(|a| json!({"code": a.code, "syms": a.syms.iter().map(|(n, s)| {
                let (k, t) = match s { S::Lit(t) => ("lit", t), S::Nt(t) => ("nt", t), S::Rx(t) => ("rx", t) };
                json!([n, k, t]) }).collect::<Vec<_>>()})).collect::<Vec<_>>()})).collect::<Vec<_>>())
    }
    pub fn from_json(v: &Value) -> G {
        let st = |v: &Value| v.as_str().unwrap_or("").to_string();
        G(v.as_array().unwrap().iter().map(|g| Group {
            name: st(&g["name"]),
            start: g["start"].as_bool().unwrap(),
            export: g["export"].as_bool().unwrap_or(true),
            ty: st(&g["ty"]),
            alts: g["alts"].as_array().unwrap().iter().map(|a| Alt {
                code: st(&a["code"]),
                syms: a["syms"].as_array().unwrap().iter().map(|s| (s[0].as_str().map(String::from), match s[1].as_str().unwrap() {
                    "lit" => S::Lit(st(&s[2])),
                    "nt" => S::Nt(st(&s[2])),
                    _ => S::Rx(st(&s[2])),
                })).collect(),
            }).collect(),
        }).collect())
    }
    /// "S -> A 'a' | B; A -> ..." with 'x' literals and /x/ regexes; the first group is the start group
    pub fn mini(s: &str) -> G {
        let mut out = vec![];
        for (i, g) in s.split(';').enumerate() {
            let (name, rest) = g.split_once("->").unwrap();
            let alts = rest.split(" | ").map(|a| Alt {
                syms: a.split_whitespace().map(|t| {
                    let inner = || t[1..t.len() - 1].to_string();
                    if t.starts_with('\'') { (None, S::Lit(inner())) }
                    else if t.starts_with('/') { (None, S::Rx(inner())) }
                    else { (None, S::Nt(t.to_string())) }
                }).collect(),
                code: "null".into(),
            }).collect();
            out.push(Group { name: name.trim().into(), start: i == 0, export: true, ty: "".into(), alts });
        }
        G(out)
    }
    pub fn to_text(&self) -> String {
        let mut t = String::new();
        for g in &self.0 {
            if g.export || g.start {
                t += "export ";
            }
            if g.start {
                t += "start ";
            }
            t += &format!("{}: ({}) = [\n", g.name, g.ty);
            for a in &g.alts {
                t += "  ";
                for (n, s) in &a.syms {
                    let b = match s {
                        S::Lit(x) => format!("\"{}\"", x),
                        S::Rx(x) => format!("r\"{}\"", x),
                        S::Nt(x) => x.clone(),
                    };
                    t += &match n {
                        Some(n) => format!("<{}: {}> ", n, b),
                        None => format!("{} ", b),
                    };
                }
                t += &format!("=> ({}),\n", a.code);
            }
            t += "]\n";
        }
        t
    }
    pub fn to_ast<'a>(&self, bump: &'a Bump) -> Vec<ast::Production<'a>> {
        let st = |s: &str| -> &'a str { bump.alloc_str(s) };
        self.0.iter().map(|g| ast::Production {
            name: ast::Ident(st(&g.name)),
            is_start: g.start,
            ts_code: st(&g.ty),
            bodies: g.alts.iter().map(|a| ast::ProductionBody {
                mapping_fn: st(&a.code),
                input_tokens: a.syms.iter().map(|(n, s)| {
                    let b = match s {
                        S::Lit(x) => ast::InputSymbol::StrLit(st(x)),
                        S::Rx(x) => ast::InputSymbol::Regex(st(x)),
                        S::Nt(x) => ast::InputSymbol::NonTerminal(ast::Ident(st(x))),
                    };
                    match n {
                        Some(n) => ast::InputSymbol::Named(bump.alloc(ast::NamedSymbol { name: Some(ast::Ident(st(n))), ty: bump.alloc(b) })),
                        None => b,
                    }
                }).collect(),
            }).collect(),
        }).collect()
    }
    pub fn start(&self) -> Option<&str> {
        self.0.iter().find(|g| g.start).map(|g| g.name.as_str())
    }
    pub fn alts(&self) -> Vec<(&Group, &Alt)> {
        self.0.iter().flat_map(|g| g.alts.iter().map(move |a| (g, a))).collect()
    }
    pub fn symbols(&self) -> BTreeSet<S> {
        let mut r: BTreeSet<S> = self.alts().iter().flat_map(|(_, a)| a.syms.iter().map(|(_, s)| s.clone())).collect();
        if let Some(s) = self.start() {
            r.insert(S::Nt(s.to_string()));
        }
        r
    }
    pub fn terminals(&self) -> Vec<S> {
        self.symbols().into_iter().filter(|s| !matches!(s, S::Nt(_))).collect()
    }
    pub fn well_defined(&self) -> bool {
        let names: BTreeSet<&str> = self.0.iter().filter(|g| !g.alts.is_empty()).map(|g| g.name.as_str()).collect();
        self.start().is_some()
            && self.symbols().iter().all(|s| match s { S::Nt(n) => names.contains(n.as_str()), _ => true })
            && self.alts().iter().all(|(_, a)| !a.syms.is_empty())
    }
}

pub fn sym_of(s: &Symbol) -> Option<S> {
    match s {
        Symbol::StrLit(t) => Some(S::Lit(t.to_string())),
        Symbol::Regex(t) => Some(S::Rx(t.to_string())),
        Symbol::NonTerminal(t) => Some(S::Nt(t.0.to_string())),
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------------------------------
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn p(&mut self, num: usize, den: usize) -> bool {
        self.n(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
}

pub const CORPUS: &[&str] = &[
    "S -> C C ; C -> 'c' C | 'd'",
    "E -> E '+' T | T ; T -> T '*' F | F ; F -> '(' E ')' | 'i'",
    "S -> L '=' R | R ; L -> '*' R | 'i' ; R -> L",
    "S -> 'a' A 'd' | 'b' B 'd' | 'a' B 'e' | 'b' A 'e' ; A -> 'c' ; B -> 'c'",
    "S -> A 'a' | 'b' A 'c' | 'd' 'c' | 'b' 'd' 'a' ; A -> 'd'",
    "S -> A 'a' | 'b' A 'c' | B 'c' | 'b' B 'a' ; A -> 'd' ; B -> 'd'",
    "S -> S 'a' | 'a'",
    "X -> N B D | 'q' ; N -> 'n' | M ; M -> N ; B -> 'b' ; D -> D 'c'",
    "X -> N B D | N 'q' ; N -> 'n' | M 'x' | K ; M -> N ; K -> L ; L -> 'k' ; B -> 'b' ; D -> 'c' D",
    "S -> 'a' S | 'a'",
    "S -> 'a' S 'b' | 'a' 'b'",
    "S -> '(' S ')' | '(' ')' | S '(' ')'",
    "A -> B 'x' | 'y' ; B -> A 'z' | 'w'",
    "L -> '[' I ']' | 'x' ; I -> L | I ',' L",
    "V -> '{' M '}' | '[' X ']' | 's' ; M -> P | M ',' P ; P -> 's' ':' V ; X -> V | X ',' V",
    "S -> E ; E -> E 'o' E | 'i'",
    "S -> 'a' | 'a'",
    "S -> A | B ; A -> 'a' ; B -> 'a'",
    "S -> 'i' S 'e' S | 'i' S | 'x'",
    "P -> D P | D ; D -> 't' N '!' ; N -> N ',' 'v' | 'v'",
    "S -> X Y ; X -> 'a' X | 'b' ; Y -> 'b' Y | 'a'",
    "S -> A B C ; A -> 'a' | A 'a' ; B -> 'b' | B 'b' ; C -> 'c' | C 'c'",
    "S -> 'a' A | 'b' B ; A -> 'c' A | 'd' ; B -> 'c' B | 'd'",
    "S -> 'a' B 'x' | 'c' B 'y' | 'a' D 'y' ; B -> 'b' 'b' ; D -> 'b' 'b'",
    "Z -> 'n' | Z 'p' Z2 ; Z2 -> 'n' | '(' Z ')'",
    "S -> A 'b' ; A -> A2 ; A2 -> A3 ; A3 -> 'a' | S 'a'",
    "S -> T | S '-' T ; T -> /[0-9]+/ | '-' T",
    "S -> /[0-9]+/ S | /[x-z]+/",
    "S -> 'a' X 'a' | 'b' X 'b' | 'a' Y 'b' ; X -> 'e' W ; Y -> 'e' W 'q' ; W -> 'w' | 'w' W",
    "Q -> Q Q 'a' | 'b'",
    "S -> M | U ; M -> 'f' M 'e' M | 'o' ; U -> 'f' S | 'f' M 'e' U",
];

const LITS: &[&str] = &["a", "b", "c", "d", "(", ")"];
const RXS: &[&str] = &["[0-9]+", "[x-z]"];

/// random grammar without empty alternatives, all non-terminals defined
pub fn random(r: &mut Rng, max_nt: usize, max_t: usize, max_alts: usize, max_len: usize, rx: bool) -> G {
    let names = ["S", "A", "B", "C", "D"];
    let nnt = 1 + r.n(max_nt);
    let nt = 1 + r.n(max_t);
    let mut groups = vec![];
    for i in 0..nnt {
        let mut alts: Vec<Alt> = vec![];
        for _ in 0..1 + r.n(max_alts) {
            let len = 1 + r.n(max_len);
            let syms: Vec<_> = (0..len).map(|_| {
                let s = if r.p(2, 5) { S::Nt(names[r.n(nnt)].into()) }
                    else if rx && r.p(1, 6) { S::Rx(r.pick(RXS).to_string()) }
                    else { S::Lit(LITS[r.n(nt)].into()) };
                (None, s)
            }).collect();
            let a = Alt { syms, code: "null".into() };
            if r.p(1, 20) || !alts.contains(&a) {
                alts.push(a);
            }
        }
        groups.push(Group { name: names[i].into(), start: i == 0, export: true, ty: "".into(), alts });
    }
    if r.p(1, 8) {
        groups.reverse();
    }
    if r.p(1, 10) {
        // a second group of an existing name
        let mut g = groups[r.n(groups.len())].clone();
        g.start = false;
        g.alts = vec![Alt { syms: vec![(None, S::Lit(LITS[r.n(nt)].into()))], code: "null".into() }];
        groups.push(g);
    }
    if r.p(1, 12) {
        // more than one group marked start: the first counts
        let k = r.n(groups.len());
        groups[k].start = true;
    }
    G(groups)
}

/// give bindings, codes, types to a grammar
pub fn decorate(r: &mut Rng, g: &mut G) {
    let codes = ["null", "{ a: 1 }", "x", "[...x, 'y']", "{ k: \"v\", w: (1) }", "x ? 1 : 2", "\"é\"", "'日本'"];
    for gr in g.0.iter_mut() {
        gr.ty = r.pick(&["number", "{ kind: \"A\" }", "string[]", "(A | B)", "\"ü\""]).to_string();
        for a in gr.alts.iter_mut() {
            a.code = r.pick(&codes).to_string();
            for (i, (n, _)) in a.syms.iter_mut().enumerate() {
                *n = if r.p(1, 2) { Some(format!("{}{}", r.pick(&["x", "y", "_n", "Val"]), i)) } else { None };
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
/// The internal grammar as the LR oracle sees it (built from Grammar's accessors)
pub struct Og {
    pub prods: Vec<(S, Vec<T>)>,
    pub syms: Vec<T>,
    first: BTreeMap<S, BTreeSet<T>>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    Eof,
    Sym(S),
}
pub type Core = BTreeSet<(usize, usize)>;
pub type Items = BTreeMap<(usize, usize), BTreeSet<T>>;

fn t_of(s: &Symbol) -> T {
    match sym_of(s) {
        Some(s) => T::Sym(s),
        None => T::Eof,
    }
}

impl Og {
    pub fn new(g: &Grammar) -> Og {
        let prods: Vec<(S, Vec<T>)> = g.iter_productions().map(|p| (S::Nt(p.name.0.to_string()), p.input_tokens.iter().map(t_of).collect())).collect();
        let syms = g.tokens().map(t_of).collect();
        let mut o = Og { prods, syms, first: BTreeMap::new() };
        // left-corner closure
        loop {
            let mut ch = false;
            for (n, rhs) in &o.prods {
                let f = match rhs.first() {
                    Some(t) => o.first_sym(t),
                    None => continue,
                };
                let e = o.first.entry(n.clone()).or_default();
                for x in f {
                    ch |= e.insert(x);
                }
            }
            if !ch {
                break;
            }
        }
        o
    }
    pub fn is_nt(t: &T) -> bool {
        matches!(t, T::Sym(S::Nt(_)))
    }
    pub fn first_sym(&self, t: &T) -> BTreeSet<T> {
        match t {
            T::Sym(n @ S::Nt(_)) => self.first.get(n).cloned().unwrap_or_default(),
            t => [t.clone()].into(),
        }
    }
    pub fn closure(&self, items: &Items) -> Items {
        let mut r = items.clone();
        let mut work: Vec<((usize, usize), T)> = r.iter().flat_map(|(i, l)| l.iter().map(move |t| (*i, t.clone()))).collect();
        while let Some(((p, d), la)) = work.pop() {
            let rhs = &self.prods[p].1;
            if let Some(T::Sym(b @ S::Nt(_))) = rhs.get(d) {
                let f = self.first_sym(rhs.get(d + 1).unwrap_or(&la));
                for (q, (n, _)) in self.prods.iter().enumerate() {
                    if n == b {
                        for t in &f {
                            if r.entry((q, 0)).or_default().insert(t.clone()) {
                                work.push(((q, 0), t.clone()));
                            }
                        }
                    }
                }
            }
        }
        r.retain(|_, l| !l.is_empty());
        r
    }
    pub fn goto(&self, i: &Items, x: &T) -> Items {
        let k: Items = i.iter().filter(|((p, d), _)| self.prods[*p].1.get(*d) == Some(x)).map(|((p, d), l)| ((*p, d + 1), l.clone())).collect();
        self.closure(&k)
    }
    pub fn start_items(&self) -> Items {
        self.closure(&[((0, 0), [T::Eof].into())].into())
    }
    pub fn collection(&self, max: usize) -> Option<Vec<Items>> {
        let mut c = vec![self.start_items()];
        let mut seen: BTreeSet<Items> = c.iter().cloned().collect();
        let mut i = 0;
        while i < c.len() {
            for x in &self.syms {
                let g = self.goto(&c[i], x);
                if !g.is_empty() && seen.insert(g.clone()) {
                    c.push(g);
                    if c.len() > max {
                        return None;
                    }
                }
            }
            i += 1;
        }
        Some(c)
    }
}
pub fn core(i: &Items) -> Core {
    i.keys().copied().collect()
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}
pub type Tables = (BTreeMap<(usize, T), BTreeSet<Act>>, BTreeMap<(usize, String), usize>);

impl Og {
    /// actions prescribed for the given LALR states (states addressed by index; targets by core)
    pub fn tables(&self, states: &[Items]) -> Tables {
        let idx = |i: &Items| states.iter().position(|s| core(s) == core(i));
        let mut act: BTreeMap<(usize, T), BTreeSet<Act>> = BTreeMap::new();
        let mut got = BTreeMap::new();
        for (i, s) in states.iter().enumerate() {
            for ((p, d), la) in s {
                match self.prods[*p].1.get(*d) {
                    Some(t) if !Og::is_nt(t) => {
                        if let Some(j) = idx(&self.goto(s, t)) {
                            act.entry((i, t.clone())).or_default().insert(Act::Shift(j));
                        }
                    }
                    Some(_) => (),
                    None => {
                        for t in la {
                            let a = if *p == 0 && *t == T::Eof { Act::Accept } else { Act::Reduce(*p) };
                            act.entry((i, t.clone())).or_default().insert(a);
                        }
                    }
                }
            }
            for x in &self.syms {
                if let T::Sym(S::Nt(n)) = x {
                    let g = self.goto(s, x);
                    if !g.is_empty() {
                        if let Some(j) = idx(&g) {
                            got.insert((i, n.clone()), j);
                        }
                    }
                }
            }
        }
        (act, got)
    }
    pub fn merge(sets: &[Items]) -> Vec<Items> {
        let mut out: Vec<Items> = vec![];
        for s in sets {
            match out.iter_mut().find(|o| core(o) == core(s)) {
                Some(o) => {
                    for (k, l) in s {
                        o.get_mut(k).unwrap().extend(l.iter().cloned());
                    }
                }
                None => out.push(s.clone()),
            }
        }
        out
    }
}

// ---------------------------------------------------------------------------------------------------------------
/// Does `start` derive the terminal sequence? Chart by spans, least fixpoint (no empty productions).
pub fn derives(g: &G, w: &[S]) -> bool {
    let n = w.len();
    if n == 0 {
        return false;
    }
    let prods: Vec<(&str, Vec<&S>)> = g.alts().iter().map(|(gr, a)| (gr.name.as_str(), a.syms.iter().map(|(_, s)| s).collect())).collect();
    let mut d: BTreeSet<(&str, usize, usize)> = BTreeSet::new();
    for len in 1..=n {
        for i in 0..=n - len {
            let j = i + len;
            loop {
                let mut ch = false;
                for (name, rhs) in &prods {
                    if d.contains(&(*name, i, j)) || rhs.len() > len {
                        continue;
                    }
                    let mut at: BTreeSet<usize> = [i].into();
                    for (k, s) in rhs.iter().enumerate() {
                        let left = rhs.len() - k - 1;
                        let mut nx = BTreeSet::new();
                        for p in at {
                            match s {
                                S::Nt(m) => {
                                    for e in p + 1..=j - left {
                                        if d.contains(&(m.as_str(), p, e)) {
                                            nx.insert(e);
                                        }
                                    }
                                }
                                t => {
                                    if p < j && &w[p] == *t {
                                        nx.insert(p + 1);
                                    }
                                }
                            }
                        }
                        at = nx;
                    }
                    if at.contains(&j) {
                        d.insert((name, i, j));
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
    }
    d.contains(&(g.start().unwrap(), 0, n))
}

/// a random sentence of at most about `max` terminals, if the start symbol is productive
pub fn sentence(g: &G, r: &mut Rng, max: usize) -> Option<Vec<S>> {
    // minimal heights
    let mut h: BTreeMap<String, usize> = BTreeMap::new();
    loop {
        let mut ch = false;
        for (gr, a) in g.alts() {
            let m = a.syms.iter().map(|(_, s)| match s { S::Nt(n) => h.get(n).copied(), _ => Some(0) }).collect::<Option<Vec<_>>>();
            if let Some(m) = m {
                let v = 1 + m.into_iter().max().unwrap_or(0);
                if h.get(&gr.name).map_or(true, |o| v < *o) {
                    h.insert(gr.name.clone(), v);
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    fn alt_h(a: &Alt, h: &BTreeMap<String, usize>) -> Option<usize> {
        a.syms.iter().map(|(_, s)| match s { S::Nt(n) => h.get(n).copied(), _ => Some(0) }).collect::<Option<Vec<_>>>().map(|m| m.into_iter().max().unwrap_or(0))
    }
    h.get(g.start()?)?;
    let mut out = vec![];
    let mut stack = vec![S::Nt(g.start()?.to_string())];
    let mut steps = 0;
    while let Some(s) = stack.pop() {
        match s {
            S::Nt(n) => {
                steps += 1;
                let alts: Vec<&Alt> = g.alts().into_iter().filter(|(gr, a)| gr.name == n && alt_h(a, &h).is_some()).map(|(_, a)| a).collect();
                let a = if steps > max { *alts.iter().min_by_key(|a| (alt_h(a, &h), a.syms.len())).unwrap() } else { *r.pick(&alts) };
                for (_, s) in a.syms.iter().rev() {
                    stack.push(s.clone());
                }
            }
            t => out.push(t),
        }
        if out.len() + stack.len() > 200 {
            return None;
        }
    }
    Some(out)
}
