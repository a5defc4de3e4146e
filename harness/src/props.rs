//! One check per property: `check` decides a case against the real code, `generate` makes cases.
use crate::gram::{self, Act, Og, Rng, G, S, T};
use crate::rx::Rx;
use crate::ts::{self, V};
use crate::Run;
use bumpalo::Bump;
use indexmap::IndexSet;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use typelalr::lalr::item::{ItemSet, TokenIdx};
use typelalr::lalr::table::{self, Action};
use typelalr::lalr::Lalr;
use typelalr::lex::dfa::{remove_overlap, DFA};
use typelalr::lex::lex::{Lex, Token, TokenDef};
use typelalr::lex::nfa::{Match, StateIdx, NFA};
use typelalr::parser::{ast, Grammar, Symbol};

pub type R = Result<bool, String>;
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

fn hir(s: &str) -> Option<regex_syntax::hir::Hir> {
    regex_syntax::Parser::new().parse(s).ok()
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}
fn words(alphabet: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for c in alphabet {
                let mut s = out[i].clone();
                s.push(*c);
                out.push(s);
            }
        }
        from = to;
    }
    out
}
/// characters worth trying for regexes: those they mention and neighbours
fn alphabet_of(regexes: &[String]) -> Vec<char> {
    let mut set: BTreeSet<char> = BTreeSet::new();
    for r in regexes {
        for c in r.chars() {
            set.insert(c);
        }
    }
    for c in "?*+()[]|^\\-:".chars() {
        set.remove(&c);
    }
    let mut v: Vec<char> = set.into_iter().collect();
    v.truncate(4);
    for c in ['a', 'b'] {
        if !v.contains(&c) && v.len() < 3 {
            v.push(c);
        }
    }
    v
}
fn test_words(regexes: &[String], case: &Value) -> Vec<String> {
    let a = alphabet_of(regexes);
    let mut w = words(&a, if a.len() <= 3 { 5 } else { 4 });
    w.extend(["é", "日本", "aé", "\u{0}", "\u{10ffff}", "ab ab", "\n", "aaaaaaaa", "abababab", "{", "}", "~", "z", "A", "0", "9"].map(String::from));
    w.extend(strs(&case["inputs"]));
    w
}

// ----------------------------------------------------------------------------------------------------- lexer side
fn c01(case: &Value) -> R {
    let re = case["regex"].as_str().unwrap();
    let h = match hir(re) { Some(h) => h, None => return Ok(false) };
    let rx = match Rx::new(&h) { Some(r) => r, None => return Ok(false) };
    let nfa = NFA::from_regex(&h);
    let mut pos = 0;
    let mut neg = 0;
    for w in test_words(&[re.to_string()], case) {
        let want = rx.matches(&w);
        let got = nfa.simulate(&w);
        ensure!(want == got, "regex {:?} on {:?}: the automaton answers {}, the regex {}", re, w, got, want);
        if want { pos += 1 } else { neg += 1 }
    }
    Ok(pos > 0 && neg > 0)
}

/// the combination of token automata, through the public interface
fn combined(hirs: &[regex_syntax::hir::Hir]) -> NFA {
    let mut nfas: Vec<NFA> = hirs.iter().map(NFA::from_regex).collect();
    let mut all = NFA::lex_nfa_template(&nfas.iter().map(|n| (n.states.len(), n.edges.len())).collect::<Vec<_>>());
    let (mut so, mut eo) = (1, nfas.len());
    for n in nfas.iter_mut() {
        n.shift_state_and_edges(so, eo);
        so += n.states.len();
        eo += n.edges.len();
        all.states.extend(n.states.iter().cloned());
        all.edges.extend(n.edges.iter().cloned());
    }
    all
}
fn nfa_reach(n: &NFA, w: &str) -> BTreeSet<StateIdx> {
    fn eps(n: &NFA, mut s: BTreeSet<StateIdx>) -> BTreeSet<StateIdx> {
        loop {
            let add: Vec<StateIdx> = n.edges.iter().filter(|e| e.label.is_none() && s.contains(&e.from) && !s.contains(&e.to)).map(|e| e.to).collect();
            if add.is_empty() {
                return s;
            }
            s.extend(add);
        }
    }
    let mut s = eps(n, [StateIdx(0)].into());
    for c in w.chars() {
        s = n.edges.iter().filter(|e| s.contains(&e.from) && e.label.as_ref().map_or(false, |m| m.range.start <= c as u32 && (c as u32) < m.range.end)).map(|e| e.to).collect();
        s = eps(n, s);
    }
    s
}
fn dfa_walk(d: &DFA, w: &str) -> (usize, StateIdx) {
    let mut s = StateIdx(0);
    let mut k = 0;
    for c in w.chars() {
        let c = c as u32;
        match d.edges.iter().find(|e| e.from == s && e.label.range.start <= c && c < e.label.range.end) {
            Some(e) => {
                s = e.to;
                k += 1;
            }
            None => break,
        }
    }
    (k, s)
}
fn c02(case: &Value) -> R {
    let res = strs(&case["regexes"]);
    let hirs: Vec<_> = match res.iter().map(|r| hir(r)).collect::<Option<Vec<_>>>() { Some(h) => h, None => return Ok(false) };
    if hirs.iter().any(|h| Rx::new(h).is_none()) {
        return Ok(false);
    }
    let nfa = if hirs.len() == 1 { NFA::from_regex(&hirs[0]) } else { combined(&hirs) };
    let dfa = DFA::from_nfa(nfa.clone());
    for i in 0..dfa.states.len() {
        let es: Vec<_> = dfa.edge_iter(StateIdx(i)).map(|it| it.cloned().collect()).unwrap_or_default();
        let all: Vec<_> = dfa.edges.iter().filter(|e| e.from.0 == i).collect();
        ensure!(es.len() == all.len(), "{:?}: the iterator of state {} yields {} of {} edges", res, i, es.len(), all.len());
        for (a, e) in es.iter().enumerate() {
            ensure!(e.to.0 < dfa.states.len(), "{:?}: edge of state {} to a state that does not exist", res, i);
            for f in &es[..a] {
                ensure!(e.label.range.end <= f.label.range.start || f.label.range.end <= e.label.range.start,
                    "{:?}: state {} has two transitions for one character: {:?} and {:?}", res, i, e.label.range, f.label.range);
            }
        }
    }
    let acc_nfa: BTreeSet<StateIdx> = (0..nfa.states.len()).map(StateIdx).filter(|s| nfa.accepting_states().contains(s)).collect();
    ensure!(dfa.accepting_states == acc_nfa, "{:?}: accepting original states {:?}, expected {:?}", res, dfa.accepting_states, acc_nfa);
    let acc = dfa.accepting_states();
    let (mut yes, mut no) = (0, 0);
    for w in test_words(&res, case) {
        let len = w.chars().count();
        let set = nfa_reach(&nfa, &w);
        let want = set.iter().any(|s| acc_nfa.contains(s));
        let got = dfa.test(&w);
        ensure!(want == got, "{:?} on {:?}: test says {}, the nondeterministic automaton {}", res, w, got, want);
        let (k, s) = dfa_walk(&dfa, &w);
        ensure!((k == len) == !set.is_empty(), "{:?} on {:?}: stops after {} characters", res, w, k);
        let pre: String = w.chars().take(k).collect();
        let pset = nfa_reach(&nfa, &pre);
        let pacc: Vec<StateIdx> = pset.iter().copied().filter(|s| acc_nfa.contains(s)).collect();
        let sim = dfa.simulate(&w);
        let exp = if pacc.is_empty() { None } else { Some(k) };
        ensure!(sim == exp, "{:?} on {:?}: simulate returns {:?}, expected {:?}", res, w, sim, exp);
        ensure!(dfa.dfa_state_is_accepting(s) == !pacc.is_empty(), "{:?} on {:?}: state {:?} accepting: {}", res, w, s, dfa.dfa_state_is_accepting(s));
        ensure!(acc.get(&s).cloned().unwrap_or_default() == pacc, "{:?} on {:?}: accepting_states gives {:?}, expected {:?}", res, w, acc.get(&s), pacc);
        #[cfg(feature = "hooks")]
        {
            let m = typelalr::verif_hooks::dfa_to_nfa(&dfa).get(&s);
            ensure!(m == Some(&pset), "{:?} after {:?}: remembered set {:?}, expected {:?}", res, pre, m, pset);
        }
        if want { yes += 1 } else { no += 1 }
    }
    Ok(yes > 0 && no > 0)
}

fn c03(case: &Value) -> R {
    let rs: Vec<(u32, u32)> = case["ranges"].as_array().unwrap().iter().map(|r| (r[0].as_u64().unwrap() as u32, r[1].as_u64().unwrap() as u32)).collect();
    let set: BTreeSet<Match> = rs.iter().map(|(a, b)| Match::from(*a..*b)).collect();
    let out: Vec<(u32, u32)> = remove_overlap(&set).iter().map(|m| (m.range.start, m.range.end)).collect();
    for (i, (a, b)) in out.iter().enumerate() {
        ensure!(a < b, "{:?}: empty range {}..{} in the alphabet {:?}", rs, a, b, out);
        for (c, d) in &out[..i] {
            ensure!(b <= c || d <= a, "{:?}: alphabet ranges {}..{} and {}..{} overlap", rs, a, b, c, d);
        }
        for (c, d) in rs.iter().filter(|(c, d)| c < d) {
            ensure!((c <= a && b <= d) || b <= c || d <= a, "{:?}: alphabet range {}..{} lies partly inside {}..{}", rs, a, b, c, d);
        }
    }
    let pts: BTreeSet<u32> = rs.iter().chain(out.iter()).flat_map(|(a, b)| [*a, a.saturating_add(1), a.saturating_sub(1), *b, b.saturating_sub(1)]).collect();
    for p in pts {
        let inn = rs.iter().any(|(a, b)| *a <= p && p < *b);
        let o = out.iter().any(|(a, b)| *a <= p && p < *b);
        ensure!(inn == o, "{:?}: character {} is {} covered by the alphabet {:?}", rs, p, if o { "wrongly" } else { "not" }, out);
    }
    Ok(rs.iter().enumerate().any(|(i, (a, b))| rs[..i].iter().any(|(c, d)| a < d && c < b && (a, b) != (c, d))))
}

struct Munch {
    texts: Vec<(String, usize)>, // text, index of the first definition matching it
}
fn munch(defs: &[Rx], input: &str) -> Munch {
    let cs: Vec<char> = input.chars().collect();
    let mut p = 0;
    let mut texts = vec![];
    while p < cs.len() {
        let pre: Vec<Vec<bool>> = defs.iter().map(|d| d.prefixes(&cs[p..])).collect();
        let mut best = 0;
        let mut who = 0;
        let mut viable = 0;
        for (i, v) in pre.iter().enumerate() {
            viable = viable.max(v.len());
            for (k, m) in v.iter().enumerate() {
                if *m && k + 1 > best {
                    best = k + 1;
                    who = i;
                }
            }
        }
        if best > 0 {
            texts.push((cs[p..p + best].iter().collect(), who));
            p += best;
        } else if viable == 0 && (cs[p] == ' ' || cs[p] == '\n') {
            p += 1;
        } else {
            break;
        }
    }
    Munch { texts }
}
fn lex_case(case: &Value) -> Option<(Vec<(String, String, bool)>, Vec<Rx>, Vec<regex_syntax::hir::Hir>)> {
    let defs: Vec<(String, String, bool)> = case["defs"].as_array()?.iter().map(|d| (d[0].as_str().unwrap().into(), d[1].as_str().unwrap().into(), d[2].as_bool().unwrap())).collect();
    let hirs: Vec<_> = defs.iter().map(|d| hir(&d.1)).collect::<Option<_>>()?;
    let rxs: Vec<_> = hirs.iter().map(Rx::new).collect::<Option<_>>()?;
    Some((defs, rxs, hirs))
}
fn mk_lex(defs: &[(String, String, bool)], hirs: &[regex_syntax::hir::Hir], all_val: bool) -> Lex {
    Lex::from_tokens(defs.iter().zip(hirs).map(|(d, h)| (TokenDef { name: d.0.clone(), with_val: all_val || d.2, token_idx: Some(7) }, h.clone())).collect())
}
fn lex_inputs(defs: &[(String, String, bool)], case: &Value) -> Vec<String> {
    let res: Vec<String> = defs.iter().map(|d| d.1.clone()).collect();
    let mut a = alphabet_of(&res);
    a.truncate(3);
    if !a.contains(&' ') {
        a.push(' ');
    }
    let mut w = words(&a, 4);
    for k in strs(&case["inputs"]) {
        w.push(k);
    }
    w
}
fn c04(case: &Value) -> R {
    let (defs, rxs, hirs) = match lex_case(case) { Some(x) => x, None => return Ok(false) };
    let lex = mk_lex(&defs, &hirs, true);
    let plain = mk_lex(&defs, &hirs, false);
    let mut multi = false;
    for w in lex_inputs(&defs, case) {
        let m = munch(&rxs, &w);
        let want: Vec<&str> = m.texts.iter().map(|t| t.0.as_str()).collect();
        let got = lex.lex(&w);
        let vals: Vec<String> = got.iter().map(|t| token_val(t).unwrap_or("<no value>".into())).collect();
        ensure!(vals == want, "definitions {:?} on {:?}: cut into {:?}, expected {:?}", defs, w, vals, want);
        let n = plain.lex(&w);
        ensure!(n.len() == want.len(), "definitions {:?} on {:?}: {} tokens, expected {}", defs, w, n.len(), want.len());
        for (t, x) in n.iter().zip(&want) {
            if let Some(v) = token_val(t) {
                ensure!(v == *x, "definitions {:?} on {:?}: value {:?}, expected {:?}", defs, w, v, x);
            }
        }
        multi |= want.len() > 1;
    }
    Ok(multi)
}
/// The value of a token, found through the public interface (Debug), as its fields are private
fn token_parts(t: &Token) -> (String, Option<String>) {
    // Token implements Debug; compare against candidates instead of parsing where possible
    let d = format!("{:?}", t);
    let name = debug_str(&d, "name: ").unwrap_or_default();
    let val = debug_str(&d, "val: Some(");
    (name, val)
}
fn debug_str(d: &str, key: &str) -> Option<String> {
    let i = d.find(key)? + key.len();
    let rest = &d[i..];
    if !rest.starts_with('"') {
        return None;
    }
    let mut out = String::new();
    let mut it = rest[1..].chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '0' => out.push('\0'),
                'u' => {
                    it.next();
                    let h: String = it.by_ref().take_while(|c| *c != '}').collect();
                    out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}
fn token_val(t: &Token) -> Option<String> {
    token_parts(t).1
}
fn c05(case: &Value) -> R {
    let (defs, rxs, hirs) = match lex_case(case) { Some(x) => x, None => return Ok(false) };
    let lex = mk_lex(&defs, &hirs, true);
    let plain = mk_lex(&defs, &hirs, false);
    let mut tie = false;
    for w in lex_inputs(&defs, case) {
        let twin = lex.lex(&w);
        let got = plain.lex(&w);
        ensure!(twin.len() == got.len(), "definitions {:?} on {:?}: the number of tokens depends on which carry values", defs, w);
        for (a, b) in twin.iter().zip(&got) {
            let (name, text) = token_parts(a);
            let text = text.unwrap_or_default();
            let who: Vec<usize> = (0..defs.len()).filter(|i| rxs[*i].matches(&text)).collect();
            ensure!(!who.is_empty(), "definitions {:?} on {:?}: {:?} claims {:?}, which no definition matches", defs, w, name, text);
            tie |= who.len() > 1;
            let d = &defs[who[0]];
            ensure!(name == d.0, "definitions {:?} on {:?}: {:?} reported as {:?}, the first definition matching it is {:?}", defs, w, text, name, d.0);
            ensure!(*a == Token::new_with_val(d.0.clone(), text.clone()), "definitions {:?} on {:?}: {:?}", defs, w, a);
            let exp = if d.2 { Token::new_with_val(d.0.clone(), text.clone()) } else { Token::new(d.0.clone()) };
            ensure!(*b == exp, "definitions {:?} on {:?}: token {:?}, expected {:?}", defs, w, b, exp);
        }
    }
    Ok(tie)
}

// --------------------------------------------------------------------------------------------------- grammar side
fn grammar_case(case: &Value) -> Option<G> {
    let g = G::from_json(&case["grammar"]);
    if g.well_defined() { Some(g) } else { None }
}
fn c06(case: &Value) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    let bump = Bump::new();
    let ast = g.to_ast(&bump);
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let txt = g.to_text();
    let prods: Vec<_> = gr.iter_productions().collect();
    let alts = g.alts();
    ensure!(prods.len() == alts.len() + 1, "{}: {} productions for {} alternatives", txt, prods.len(), alts.len());
    let start = g.start().unwrap();
    ensure!(prods[0].name.0 == format!("{}'", start) && prods[0].input_tokens == vec![Symbol::NonTerminal(ast::Ident(start))],
        "{}: production 0 is {} -> {:?}", txt, prods[0].name, prods[0].input_tokens);
    for (i, (gp, a)) in alts.iter().enumerate() {
        let p = prods[i + 1];
        let want: Vec<S> = a.syms.iter().map(|s| s.1.clone()).collect();
        let got: Vec<S> = p.input_tokens.iter().filter_map(gram::sym_of).collect();
        ensure!(p.name.0 == gp.name && got == want && got.len() == p.input_tokens.len() && p.mapping_fn == Some(a.code.as_str()) && p.ts_type == Some(gp.ty.as_str()),
            "{}: production {} is {} -> {:?} code {:?} type {:?}", txt, i + 1, p.name, p.input_tokens, p.mapping_fn, p.ts_type);
    }
    for (i, p) in prods.iter().enumerate() {
        let q = gr.get_production(typelalr::lalr::item::ProductionIdx(i as u32));
        ensure!(q.map(|q| std::ptr::eq(q, *p)) == Some(true), "{}: get_production({}) is another production", txt, i);
    }
    ensure!(gr.get_production(typelalr::lalr::item::ProductionIdx(prods.len() as u32)).is_none(), "{}: a production past the last", txt);
    // symbols
    let toks: Vec<Symbol> = gr.tokens().copied().collect();
    ensure!(matches!(toks.first(), Some(Symbol::Eof)), "{}: the symbol list starts with {:?}", txt, toks.first());
    let rest: Vec<S> = toks[1..].iter().filter_map(gram::sym_of).collect();
    ensure!(rest.len() + 1 == toks.len(), "{}: symbol list {:?}", txt, toks);
    let uniq: BTreeSet<S> = rest.iter().cloned().collect();
    ensure!(uniq.len() == rest.len() && uniq == g.symbols(), "{}: symbol list {:?}", txt, toks);
    // the same order for the same symbols, however the alternatives are ordered
    let mut g2 = g.clone();
    for x in g2.0.iter_mut() {
        x.alts.reverse();
        for a in x.alts.iter_mut() {
            a.syms.reverse();
        }
    }
    let ast2 = g2.to_ast(&bump);
    let gr2 = Grammar::grammar_from_ast_productions(&bump, &ast2);
    ensure!(gr2.tokens().collect::<Vec<_>>() == toks.iter().collect::<Vec<_>>(), "{}: the order of the symbols depends on the order of the alternatives: {:?}", txt, toks);
    for (i, t) in toks.iter().enumerate() {
        ensure!(gr.get_token(TokenIdx(i as u32)) == Some(t), "{}: get_token({}) is {:?}", txt, i, gr.get_token(TokenIdx(i as u32)));
        ensure!(gr.get_token_idx(t) == Some(TokenIdx(i as u32)), "{}: get_token_idx({:?}) is {:?}", txt, t, gr.get_token_idx(t));
    }
    ensure!(gr.get_token(TokenIdx(toks.len() as u32)).is_none(), "{}: a symbol past the last", txt);
    for s in [Symbol::StrLit("no such literal"), Symbol::Regex("no such"), Symbol::NonTerminal(ast::Ident("NoSuch"))] {
        ensure!(gr.get_token_idx(&s).is_none(), "{}: an index for {:?}", txt, s);
    }
    for s in &toks {
        // the other kinds with the same text are other symbols
        if let Some(S::Lit(x)) = gram::sym_of(s) {
            let o = S::Rx(x.clone());
            if !uniq.contains(&o) {
                ensure!(gr.get_token_idx(&Symbol::Regex(bump.alloc_str(&x))).is_none(), "{}: regex {:?} found", txt, x);
            }
        }
    }
    let nts: Vec<(u32, String)> = gr.non_terminals().map(|(i, n)| (i.0, n.0.to_string())).collect();
    let want: Vec<(u32, String)> = toks.iter().enumerate().filter_map(|(i, t)| match t { Symbol::NonTerminal(n) => Some((i as u32, n.0.to_string())), _ => None }).collect();
    ensure!(nts == want, "{}: non_terminals {:?}, expected {:?}", txt, nts, want);
    let mut names: BTreeSet<&str> = g.0.iter().map(|x| x.name.as_str()).collect();
    let aug = format!("{}'", start);
    names.insert(&aug);
    for n in names {
        let want: Vec<u32> = prods.iter().enumerate().filter(|(_, p)| p.name.0 == n).map(|(i, _)| i as u32).collect();
        let name = ast::Ident(bump.alloc_str(n));
        let gr: &Grammar = unsafe { std::mem::transmute::<&Grammar, &Grammar>(&gr) };
        if want.is_empty() {
            ensure!(gr.get_production_indices_by_name(name).map_or(true, |v| v.is_empty()), "{}: productions listed for {}", txt, n);
            continue;
        }
        let by: Vec<u32> = gr.get_production_indices_by_name(name).map(|v| v.iter().map(|p| p.0).collect()).unwrap_or_default();
        ensure!(by == want, "{}: productions of {} are {:?}, expected {:?}", txt, n, by, want);
        let it: Vec<(u32, bool)> = gr.production_iter(name).map(|(i, p)| (i.0, std::ptr::eq(p, prods[i.0 as usize]))).collect();
        ensure!(it == want.iter().map(|i| (*i, true)).collect::<Vec<_>>(), "{}: production_iter of {} gives {:?}, expected {:?}", txt, n, it, want);
    }
    ensure!(gr.get_production_indices_by_name(ast::Ident("NoSuch")).is_none(), "{}: productions for an unknown name", txt);
    Ok(alts.len() > 1)
}

fn with_grammar<X>(g: &G, f: impl FnOnce(&'static Grammar<'static>) -> X) -> X {
    // leaks are bounded: cases are small and the process short-lived
    let bump: &'static Bump = Box::leak(Box::new(Bump::new()));
    let ast: &'static Vec<ast::Production<'static>> = Box::leak(Box::new(g.to_ast(bump)));
    let gr: &'static Grammar<'static> = Box::leak(Box::new(Grammar::grammar_from_ast_productions(bump, ast)));
    f(gr)
}
fn tset<'a>(s: impl Iterator<Item = &'a Symbol<'a>>) -> BTreeSet<String> {
    s.map(|t| format!("{:?}", t)).collect()
}
fn sym_text(t: &T) -> String {
    match t {
        T::Eof => "Eof".into(),
        T::Sym(S::Lit(x)) => format!("{:?}", Symbol::StrLit(x)),
        T::Sym(S::Rx(x)) => format!("{:?}", Symbol::Regex(x)),
        T::Sym(S::Nt(x)) => format!("{:?}", Symbol::NonTerminal(ast::Ident(x))),
    }
}
fn c07(case: &Value) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    with_grammar(&g, |gr| {
        let og = Og::new(gr);
        let toks: Vec<&'static Symbol<'static>> = gr.tokens().collect();
        let mut deep = false;
        for a in 0..toks.len() {
            for b in 0..=toks.len() {
                let mut seq = vec![toks[a]];
                if b < toks.len() {
                    seq.push(toks[b]);
                }
                let got = tset(typelalr::lalr::first::first(gr, seq.iter().copied()).into_iter());
                let t = match gram::sym_of(toks[a]) { Some(s) => T::Sym(s), None => T::Eof };
                let want: BTreeSet<String> = og.first_sym(&t).iter().map(sym_text).collect();
                ensure!(got == want, "{}: FIRST of {:?} is {:?}, expected {:?}", g.to_text(), seq, got, want);
                deep |= Og::is_nt(&t) && want.len() > 1;
            }
        }
        Ok(deep)
    })
}
fn items_of(s: &ItemSet, gr: &Grammar) -> gram::Items {
    s.iter().map(|(i, l)| {
        ((i.production_idx().0 as usize, i.dot() as usize), l.iter().map(|t| match gr.get_token(*t).and_then(gram::sym_of) { Some(s) => T::Sym(s), None => T::Eof }).collect())
    }).collect()
}
fn show(i: &gram::Items) -> String {
    i.iter().map(|((p, d), l)| format!("[{}.{} {{{}}}]", p, d, l.iter().map(sym_text).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(" ")
}
const MAX_STATES: usize = 120;
fn c08(case: &Value) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    with_grammar(&g, |gr| {
        let og = Og::new(gr);
        if og.collection(MAX_STATES).is_none() {
            return Ok(false);
        }
        let sets = ItemSet::items(gr);
        let (merged, _) = table::merge_cores(&sets);
        let mut n = 0;
        ensure!(items_of(&sets[0], gr) == og.start_items(), "{}: closure of the start item is {}, expected {}", g.to_text(), show(&items_of(&sets[0], gr)), show(&og.start_items()));
        for s in sets.iter().chain(merged.iter()).take(80) {
            let o = items_of(s, gr);
            for x in gr.tokens() {
                let t = match gram::sym_of(x) { Some(s) => T::Sym(s), None => T::Eof };
                let want = og.goto(&o, &t);
                let got = items_of(&s.goto(x, gr), gr);
                ensure!(got == want, "{}: transition of {} on {:?} is {}, expected {}", g.to_text(), show(&o), x, show(&got), show(&want));
                n += (want.len() > 1) as usize;
            }
        }
        Ok(n > 0)
    })
}
fn c09(case: &Value) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    with_grammar(&g, |gr| {
        let og = Og::new(gr);
        let want = match og.collection(MAX_STATES) { Some(c) => c, None => return Ok(false) };
        let got: Vec<gram::Items> = ItemSet::items(gr).iter().map(|s| items_of(s, gr)).collect();
        ensure!(got.first() == want.first(), "{}: the first state is {}", g.to_text(), got.first().map(show).unwrap_or_default());
        let gs: BTreeSet<_> = got.iter().cloned().collect();
        let ws: BTreeSet<_> = want.iter().cloned().collect();
        ensure!(gs.len() == got.len(), "{}: a state occurs twice", g.to_text());
        for s in &ws {
            ensure!(gs.contains(s), "{}: the state {} is missing", g.to_text(), show(s));
        }
        for s in &gs {
            ensure!(ws.contains(s), "{}: the state {} is not reachable", g.to_text(), show(s));
        }
        Ok(want.len() > 4)
    })
}
fn c10(case: &Value) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    with_grammar(&g, |gr| {
        let og = Og::new(gr);
        if og.collection(MAX_STATES).is_none() {
            return Ok(false);
        }
        let all = ItemSet::items(gr);
        // the collection itself, some sub-collections and other orders of it
        let mut colls: Vec<IndexSet<ItemSet>> = vec![all.clone()];
        let n = all.len();
        colls.push(all.iter().rev().cloned().collect());
        colls.push((0..n).map(|i| all[(i * 7 + 3) % n].clone()).collect());
        colls.push(all.iter().enumerate().filter(|(i, _)| i % 3 != 1).map(|(_, s)| s.clone()).collect());
        let mut merged_any = false;
        for lr in colls {
            let before = lr.clone();
            let (lalr, map) = table::merge_cores(&lr);
            ensure!(lr == before, "{}: merging changes its argument", g.to_text());
            let o: Vec<gram::Items> = lr.iter().map(|s| items_of(s, gr)).collect();
            let m: Vec<gram::Items> = lalr.iter().map(|s| items_of(s, gr)).collect();
            ensure!(map.len() == o.len() && map.keys().copied().eq(0..o.len()), "{}: mapped states {:?} of {}", g.to_text(), map.keys(), o.len());
            for (i, s) in o.iter().enumerate() {
                let j = map[&i];
                ensure!(j < m.len() && gram::core(&m[j]) == gram::core(s), "{}: state {} is mapped to {}, which has another core", g.to_text(), i, j);
                for k in 0..i {
                    ensure!((map[&k] == j) == (gram::core(&o[k]) == gram::core(s)), "{}: states {} and {} are mapped to {} and {}", g.to_text(), k, i, map[&k], j);
                    merged_any |= map[&k] == j;
                }
            }
            for (j, s) in m.iter().enumerate() {
                let mut u: gram::Items = Default::default();
                for (i, t) in o.iter().enumerate() {
                    if map[&i] == j {
                        for (k, l) in t {
                            u.entry(*k).or_default().extend(l.iter().cloned());
                        }
                    }
                }
                ensure!(*s == u, "{}: merged state {} is {}, expected {}", g.to_text(), j, show(s), show(&u));
            }
            if !o.is_empty() {
                ensure!(map[&0] == 0, "{}: the initial state is mapped to {}", g.to_text(), map[&0]);
            }
        }
        Ok(merged_any)
    })
}
fn quiet<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
fn c11(case: &Value) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    with_grammar(&g, |gr| {
        let og = Og::new(gr);
        let coll = match og.collection(MAX_STATES) { Some(c) => c, None => return Ok(false) };
        let own = Og::merge(&coll);
        let conflict = og.tables(&own).0.values().any(|a| a.len() > 1);
        let lr = ItemSet::items(gr);
        let (lalr, map) = table::merge_cores(&lr);
        let states: Vec<gram::Items> = lalr.iter().map(|s| items_of(s, gr)).collect();
        let (act, got) = og.tables(&states);
        let confl = act.iter().find(|(_, a)| a.len() > 1);
        if conflict != confl.is_some() {
            // the item sets themselves are wrong: that is decided elsewhere (C08..C10)
            return Ok(false);
        }
        for via in 0..2 {
            let r = quiet(|| if via == 0 { table::make_lalr_tables(gr, &lalr, &lr, &map) } else { let (a, b, _) = table::make_tables(gr); (a, b) });
            match (r, confl) {
                (Err(_), Some(_)) => return Ok(true),
                (Ok(_), Some(((i, t), a))) => return Err(format!("{}: state {} and {} prescribe {:?}, not refused", g.to_text(), i, sym_text(t), a)),
                (Err(e), None) => return Err(format!("{}: refused without a conflict: {}", g.to_text(), e)),
                (Ok((action, goto)), None) => {
                    for i in 0..states.len() {
                        for (k, s) in gr.tokens().enumerate() {
                            let t = match gram::sym_of(s) { Some(s) => T::Sym(s), None => T::Eof };
                            let want = act.get(&(i, t.clone())).and_then(|a| a.iter().next()).cloned();
                            let have = action.try_index((i as u32, TokenIdx(k as u32))).map(|a| match a {
                                Action::Shift(j) => Act::Shift(*j as usize),
                                Action::Reduce(p) => Act::Reduce(p.0 as usize),
                                Action::Accept => Act::Accept,
                            });
                            ensure!(want == have, "{}: action of state {} ({}) on {:?} is {:?}, expected {:?}", g.to_text(), i, show(&states[i]), s, have, want);
                            if let Symbol::NonTerminal(n) = s {
                                let w = got.get(&(i, n.0.to_string()));
                                let h = goto.try_index((i as u32, *n));
                                ensure!(w == h, "{}: goto of state {} ({}) on {} is {:?}, expected {:?}", g.to_text(), i, show(&states[i]), n, h, w);
                            }
                        }
                    }
                    let na: usize = action.iter().map(|(_, m)| m.len()).sum();
                    let ng: usize = goto.iter().map(|(_, m)| m.len()).sum();
                    ensure!(na == act.len() && ng == got.len(), "{}: {} actions and {} gotos, expected {} and {}", g.to_text(), na, ng, act.len(), got.len());
                }
            }
        }
        Ok(states.len() > 3)
    })
}

fn render(s: &S) -> String {
    match s {
        S::Lit(x) => x.clone(),
        S::Rx(x) if x.contains("0-9") => "42".into(),
        S::Rx(x) if x.contains("[x-z]+") => "xyz".into(),
        S::Rx(_) => "y".into(),
        S::Nt(_) => unreachable!(),
    }
}
fn render_all(w: &[S]) -> String {
    w.iter().map(render).collect::<Vec<_>>().join(" ")
}
/// all short terminal sequences, sentences and near-sentences
fn sequences(g: &G, case: &Value) -> Vec<Vec<S>> {
    let t = g.terminals();
    let mut out: Vec<Vec<S>> = vec![vec![]];
    let mut from = 0;
    'l: for _ in 0..7 {
        let to = out.len();
        for i in from..to {
            for s in &t {
                let mut v = out[i].clone();
                v.push(s.clone());
                out.push(v);
                if out.len() > 140 {
                    break 'l;
                }
            }
        }
        from = to;
    }
    let mut r = Rng(case["seed"].as_u64().unwrap_or(1));
    for k in 0..14 {
        if let Some(s) = gram::sentence(g, &mut r, 2 + k) {
            let mut m = s.clone();
            match r.n(4) {
                0 => { m.remove(r.n(m.len())); }
                1 => { let i = r.n(m.len() + 1); m.insert(i, r.pick(&t).clone()); }
                2 => { let i = r.n(m.len()); m[i] = r.pick(&t).clone(); }
                _ => { m.truncate(r.n(m.len() + 1)); }
            }
            out.push(m);
            let mut d = s.clone();
            d.extend(s.clone());
            out.push(s);
            out.push(d);
        }
    }
    out.sort();
    out.dedup();
    out.sort_by_key(|v| v.len());
    out
}
fn parse_check(case: &Value, sound: bool) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    let small = with_grammar(&g, |gr| Og::new(gr).collection(4 * MAX_STATES).is_some());
    if !small {
        return Ok(false);
    }
    let bump = Bump::new();
    let ast = g.to_ast(&bump);
    let lalr = match quiet(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast))) { Ok(l) => l, Err(_) => return Ok(false) };
    let (mut yes, mut no) = (0, 0);
    for w in sequences(&g, case) {
        let sentence = gram::derives(&g, &w);
        let input = render_all(&w);
        let r = quiet(|| lalr.parse(&input));
        if sound {
            ensure!(sentence || r.is_err(), "{}: {:?} is not a sentence and is accepted", g.to_text(), input);
        } else {
            ensure!(!sentence || r.is_ok(), "{}: the sentence {:?} is rejected: {}", g.to_text(), input, r.unwrap_err());
        }
        if sentence { yes += 1 } else { no += 1 }
    }
    Ok(yes > 0 && no > 0)
}

fn symbol_rx(s: &S) -> Option<Rx> {
    match s {
        S::Lit(x) => Some(Rx::literal(x)),
        S::Rx(x) => Rx::parse(x),
        S::Nt(_) => None,
    }
}
fn c14(case: &Value) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    let texts: Vec<String> = g.terminals().iter().map(|s| match s { S::Lit(x) | S::Rx(x) | S::Nt(x) => x.clone() }).collect();
    if texts.iter().collect::<BTreeSet<_>>().len() != texts.len() {
        return Ok(false);
    }
    let bump = Bump::new();
    let ast = g.to_ast(&bump);
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let terms: Vec<(u32, S)> = gr.tokens().enumerate().filter_map(|(i, s)| gram::sym_of(s).map(|s| (i as u32, s))).filter(|(_, s)| !matches!(s, S::Nt(_))).collect();
    let rxs: Vec<Rx> = match terms.iter().map(|(_, s)| symbol_rx(s)).collect::<Option<Vec<_>>>() { Some(r) => r, None => return Ok(false) };
    let lex = Lex::from_grammar(&gr);
    let mut inputs = strs(&case["inputs"]);
    let mut r = Rng(case["seed"].as_u64().unwrap_or(1));
    for t in &texts {
        inputs.push(t.clone());
        inputs.push(format!("{}{}", t, t));
    }
    for _ in 0..if texts.is_empty() { 0 } else { 20 } {
        let n = r.n(6);
        inputs.push((0..n).map(|_| r.pick(&texts).clone()).collect::<Vec<_>>().join(*r.pick(&["", " "])));
    }
    inputs.push("42 7 abc".into());
    inputs.push(String::new());
    let mut many = false;
    for w in inputs {
        let m = munch(&rxs, &w);
        let want: Vec<(Token, TokenIdx)> = m.texts.iter().map(|(t, i)| {
            let name = match &terms[*i].1 { S::Lit(x) | S::Rx(x) | S::Nt(x) => x.clone() };
            (Token::new_with_val(name, t.clone()), TokenIdx(terms[*i].0))
        }).collect();
        let toks = lex.lex(&w);
        let wt: Vec<Token> = want.iter().map(|t| t.0.clone()).collect();
        ensure!(toks == wt, "{}: {:?} is lexed as {:?}, expected {:?}", g.to_text(), w, toks, wt);
        let conv = lex.convert_tokens(toks);
        let (last, front) = match conv.split_last() { Some(x) => x, None => return Err(format!("{}: no end marker", g.to_text())) };
        ensure!(front == &want[..], "{}: {:?} is converted to {:?}, expected {:?}", g.to_text(), w, front, want);
        ensure!(last.1 == Grammar::EOF_TOKEN_IDX && gr.get_token(last.1) == Some(&Symbol::Eof), "{}: the end marker has index {:?}", g.to_text(), last.1);
        many |= want.len() > 1;
    }
    // every token of the symbol list in turn, so each definition exists under its own name and index
    for (i, s) in &terms {
        let name = match s { S::Lit(x) | S::Rx(x) | S::Nt(x) => x.clone() };
        let t = Token::new_with_val(name.clone(), "v");
        let c = lex.convert_tokens(vec![t.clone(), t.clone()]);
        ensure!(c.len() == 3 && c[0] == (t.clone(), TokenIdx(*i)) && c[1] == (t, TokenIdx(*i)), "{}: the token {:?} is converted to {:?}", g.to_text(), name, c);
    }
    Ok(many)
}

// ------------------------------------------------------------------------------------------------------- codegen
fn vstr(v: Option<&V>) -> String {
    match v { Some(V::Str(s)) => s.clone(), v => format!("<{:?}>", v) }
}
fn c15(case: &Value) -> R {
    let (defs, _, hirs) = match lex_case(case) { Some(x) => x, None => return Ok(false) };
    let lex = mk_lex(&defs, &hirs, false);
    let text = typelalr::codegen::lex_gen::generate(&lex);
    #[cfg(feature = "hooks")]
    let (dfa, tokens) = (typelalr::verif_hooks::lex_dfa(&lex).clone(), typelalr::verif_hooks::lex_tokens(&lex).clone());
    #[cfg(not(feature = "hooks"))]
    let (dfa, tokens) = {
        // rebuilt through the public interface
        let mut m: BTreeMap<StateIdx, TokenDef> = BTreeMap::new();
        let mut off = 1;
        for (d, h) in defs.iter().zip(&hirs) {
            let n = NFA::from_regex(h);
            for a in n.accepting_states() {
                m.insert(StateIdx(a.0 + off), TokenDef { name: d.0.clone(), with_val: d.2, token_idx: Some(7) });
            }
            off += n.states.len();
        }
        (DFA::from_nfa(combined(&hirs)), m)
    };
    let toks = ts::tokens(&text)?;
    // states
    let states = ts::type_decl(&toks, "States")?;
    let want: Vec<V> = (0..dfa.states.len()).map(|i| V::Id(format!("State{}", i))).collect();
    ensure!(*states.arr()? == want, "{:?}: States is {:?}", defs, states);
    let mut edges = 0;
    for i in 0..dfa.states.len() {
        let s = ts::type_decl(&toks, &format!("State{}", i))?;
        ensure!(s.obj()?.len() == 3, "{:?}: State{} is {:?}", defs, i, s);
        let es: Vec<(u64, u64, u64)> = dfa.edges.iter().filter(|e| e.from.0 == i).map(|e| (e.to.0 as u64, e.label.range.start as u64, e.label.range.end as u64)).collect();
        edges += es.len();
        let to: Vec<u64> = s.get("to").ok_or("no to")?.arr()?.iter().map(|v| v.num()).collect::<Result<_, _>>()?;
        ensure!(to == es.iter().map(|e| e.0).collect::<Vec<_>>(), "{:?}: State{} goes to {:?}, expected {:?}", defs, i, to, es);
        let labels: Vec<(u64, u64)> = s.get("labels").ok_or("no labels")?.arr()?.iter().map(|v| {
            if v.obj()?.len() != 2 { return Err(format!("label {:?}", v)); }
            Ok((v.get("from").ok_or("no from")?.num()?, v.get("to").ok_or("no to")?.num()?))
        }).collect::<Result<_, String>>()?;
        ensure!(labels == es.iter().map(|e| (e.1, e.2)).collect::<Vec<_>>(), "{:?}: State{} has labels {:?}, expected {:?}", defs, i, labels, es);
        let acc = V::Id(if dfa.dfa_state_is_accepting(StateIdx(i)) { "true" } else { "false" }.into());
        ensure!(s.get("accepting") == Some(&acc), "{:?}: State{} is accepting {:?}", defs, i, s.get("accepting"));
    }
    ensure!(ts::type_decl(&toks, &format!("State{}", dfa.states.len())).is_err(), "{:?}: a state past the last", defs);
    // original states
    let d2n = ts::type_decl(&toks, "DFAtoNFA")?;
    let got: BTreeMap<String, Vec<u64>> = d2n.obj()?.iter().map(|(k, v)| Ok((k.clone(), v.arr()?.iter().map(|x| x.num()).collect::<Result<_, _>>()?))).collect::<Result<_, String>>()?;
    #[cfg(feature = "hooks")]
    {
        let want: BTreeMap<String, Vec<u64>> = typelalr::verif_hooks::dfa_to_nfa(&dfa).iter().map(|(k, v)| (k.0.to_string(), v.iter().map(|s| s.0 as u64).collect())).collect();
        ensure!(got == want, "{:?}: DFAtoNFA is {:?}, expected {:?}", defs, got, want);
    }
    let acc = dfa.accepting_states();
    for i in 0..dfa.states.len() {
        let g: Vec<u64> = got.get(&i.to_string()).ok_or(format!("DFAtoNFA has no entry {}", i))?.iter().copied().filter(|s| dfa.accepting_states.contains(&StateIdx(*s as usize))).collect();
        let w: Vec<u64> = acc.get(&StateIdx(i)).map(|v| v.iter().map(|s| s.0 as u64).collect()).unwrap_or_default();
        ensure!(g == w, "{:?}: DFAtoNFA of {} lists the accepting states {:?}, expected {:?}", defs, i, g, w);
    }
    ensure!(got.len() == dfa.states.len(), "{:?}: DFAtoNFA has {} entries for {} states", defs, got.len(), dfa.states.len());
    // token kinds
    let mut want: Vec<(usize, String, bool)> = vec![];
    for (k, t) in &tokens {
        if acc.values().any(|v| v.contains(k)) {
            want.push((k.0, t.name.clone(), t.with_val));
        }
    }
    let tk = ts::type_decl(&toks, "Tokens")?;
    let keys: Vec<(String, V)> = tk.obj()?.clone();
    ensure!(keys.len() == want.len(), "{:?}: Tokens is {:?}", defs, keys);
    for (k, name, val) in want {
        ensure!(tk.get(&k.to_string()) == Some(&V::Id(format!("TokenDef{}", k))), "{:?}: Tokens[{}] is {:?}", defs, k, tk.get(&k.to_string()));
        let d = ts::type_decl(&toks, &format!("TokenDef{}", k))?;
        ensure!(d.obj()?.len() == 2 && vstr(d.get("kind")) == name && d.get("hasValue") == Some(&V::Id(val.to_string())), "{:?}: TokenDef{} is {:?}, expected {:?} {}", defs, k, d, name, val);
    }
    let ndefs = toks.t.iter().filter(|t| matches!(t, ts::Tok::Id(x) if x.starts_with("TokenDef"))).count();
    ensure!(ndefs == 2 * keys.len(), "{:?}: token kinds declared beyond those of Tokens", defs);
    Ok(edges > 1)
}
fn type_defs(text: &str) -> &str {
    &text[..text.find("declare module actions").unwrap_or(text.len())]
}
fn c16(case: &Value) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    let bump = Bump::new();
    let ast = g.to_ast(&bump);
    if with_grammar(&g, |gr| Og::new(gr).collection(MAX_STATES).is_none()) {
        return Ok(false);
    }
    let lalr = match quiet(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast))) { Ok(l) => l, Err(_) => return Ok(false) };
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let (action, goto, _) = table::make_tables(&gr);
    let (_, text) = typelalr::codegen::parse_gen::generate(&bump, &ast, &lalr).map_err(|e| format!("generate: {}", e))?;
    let toks = ts::tokens(type_defs(&text))?;
    let gt = g.to_text();
    let t = ts::type_decl(&toks, "Tokens")?;
    ensure!(t.obj()?.len() == gr.tokens().count(), "{}: Tokens is {:?}", gt, t);
    let mut kinds: Vec<(String, u64)> = vec![("EOF".into(), 0)];
    for (i, s) in gr.tokens().enumerate() {
        let d = t.get(&i.to_string()).ok_or(format!("{}: Tokens has no {}", gt, i))?;
        let (k, x) = match gram::sym_of(s) {
            None => ("eof", None),
            Some(S::Lit(x)) => ("strlit", Some(x)),
            Some(S::Rx(x)) => ("regex", Some(x)),
            Some(S::Nt(x)) => ("nonterminal", Some(x)),
        };
        ensure!(vstr(d.get("kind")) == k && d.get("value").is_some() == x.is_some() && x.as_ref().map_or(true, |x| vstr(d.get("value")) == *x) && d.obj()?.len() == 1 + x.is_some() as usize,
            "{}: Tokens[{}] is {:?} for {:?}", gt, i, d, s);
        if k == "strlit" || k == "regex" {
            kinds.push((x.unwrap(), i as u64));
        }
    }
    let p = ts::type_decl(&toks, "Productions")?;
    let prods: Vec<_> = gr.iter_productions().collect();
    ensure!(p.obj()?.len() == prods.len(), "{}: {} productions declared of {}", gt, p.obj()?.len(), prods.len());
    for (i, q) in prods.iter().enumerate() {
        let d = p.get(&i.to_string()).ok_or(format!("{}: no production {}", gt, i))?;
        let idx: Vec<V> = q.input_tokens.iter().map(|s| V::Num(gr.get_token_idx(s).unwrap().0 as u64)).collect();
        ensure!(vstr(d.get("name")) == q.name.0 && d.get("tokens") == Some(&V::Arr(idx.clone())) && d.obj()?.len() == 2, "{}: production {} is declared as {:?}, expected {} {:?}", gt, i, d, q.name, idx);
    }
    let table_of = |name: &str| -> Result<BTreeMap<(u64, String), V>, String> {
        let mut m = BTreeMap::new();
        for (s, row) in ts::type_decl(&toks, name)?.obj()? {
            for (k, v) in row.obj()? {
                m.insert((s.parse().map_err(|_| format!("state {}", s))?, k.clone()), v.clone());
            }
        }
        Ok(m)
    };
    let one = |k: &str, v: V| V::Obj(vec![(k.to_string(), v)]);
    let mut want = BTreeMap::new();
    for (s, m) in action.iter() {
        for (t, a) in m {
            want.insert((*s as u64, t.0.to_string()), match a {
                Action::Shift(j) => one("shift", V::Num(*j as u64)),
                Action::Reduce(r) => one("reduce", V::Num(r.0 as u64)),
                Action::Accept => one("accept", V::Id("true".into())),
            });
        }
    }
    let got = table_of("Action")?;
    ensure!(got == want, "{}: Action is {:?}, expected {:?}", gt, got, want);
    let mut want = BTreeMap::new();
    for (s, m) in goto.iter() {
        for (n, j) in m {
            want.insert((*s as u64, n.0.to_string()), V::Num(*j as u64));
        }
    }
    let got = table_of("Goto")?;
    ensure!(got == want, "{}: Goto is {:?}, expected {:?}", gt, got, want);
    let k = ts::type_decl(&toks, "TokenKindToIdx")?;
    let mut got: Vec<(String, u64)> = k.obj()?.iter().map(|(k, v)| Ok((k.clone(), v.num()?))).collect::<Result<_, String>>()?;
    got.sort();
    kinds.sort();
    ensure!(got == kinds, "{}: TokenKindToIdx is {:?}, expected {:?}", gt, got, kinds);
    Ok(prods.len() > 2)
}
fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// compare ignoring white space (and empty spans of it around punctuation)
fn bare(s: &str) -> String {
    let cs: Vec<char> = squeeze(s).chars().collect();
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    for (i, c) in cs.iter().enumerate() {
        if *c == ' ' && !(i > 0 && i + 1 < cs.len() && w(cs[i - 1]) && w(cs[i + 1])) {
            continue;
        }
        o.push(*c);
    }
    o
}
fn ts_lit(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\'', "\\'").replace('"', "\\\"").replace('\n', "\\n").replace('\r', "\\r")
}
fn c17(case: &Value) -> R {
    let g = match grammar_case(case) { Some(g) => g, None => return Ok(false) };
    let bump = Bump::new();
    let ast = g.to_ast(&bump);
    if with_grammar(&g, |gr| Og::new(gr).collection(MAX_STATES).is_none()) {
        return Ok(false);
    }
    let lalr = match quiet(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast))) { Ok(l) => l, Err(_) => return Ok(false) };
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let (_, text) = typelalr::codegen::parse_gen::generate(&bump, &ast, &lalr).map_err(|e| format!("generate: {}", e))?;
    let gt = g.to_text();
    let at = text.find("declare module actions").ok_or("no actions module")?;
    let mut act = &text[at..];
    let alts = g.alts();
    let emit = act.find("type EmitProduction<").ok_or(format!("{}: no EmitProduction", gt))?;
    // one value type per non-terminal, as written
    let types: BTreeMap<&str, &str> = g.0.iter().map(|p| (p.name.as_str(), p.ty.as_str())).collect();
    if types.len() == g.0.len() {
        let body = act[..emit].find('{').map(|i| &act[i + 1..emit]).ok_or("no body of the actions module")?;
        let decl = |n: &str| types.get(n).map(|t| format!(" type {} = {} ", n, t)).unwrap_or_default();
        let sorted: String = types.keys().map(|n| decl(n)).collect();
        let written: String = g.0.iter().map(|p| decl(&p.name)).collect();
        ensure!(bare(body) == bare(&sorted) || bare(body) == bare(&written), "{}: the value types are {}, expected {}", gt, bare(body), bare(&sorted));
    }
    // the symbols a stack holds: tokens, and one kind per non-terminal
    let union = bare(&text[..at]);
    let from = union.find("export type Symbol=").ok_or(format!("{}: no Symbol", gt))? + "export type Symbol=".len();
    let to = union[from..].find("export type").ok_or("nothing after Symbol")? + from;
    let got: BTreeSet<&str> = union[from..to].trim_matches(|c| c == ';' || c == ' ').split('|').map(|x| x.trim()).collect();
    let want: BTreeSet<String> = types.keys().map(|n| bare(&format!("{{ kind: \"{}\", value: actions.{} }}", n, n))).chain([bare("{ kind: \"token\", token: L.Token }")]).collect();
    ensure!(got == want.iter().map(|x| x.as_str()).collect(), "{}: Symbol is {:?}, expected {:?}", gt, got, want);
    for m in ["import*as U from\"./util\"", "import*as L from\"./lex\""] {
        ensure!(union.contains(m), "{}: {} is missing", gt, m);
    }
    act = &act[emit..];
    // dispatch
    let first = act.find("type Action").unwrap_or(act.len());
    let mut want = "type EmitProduction<prodIdx extends number, symbolStack extends type_defs.Symbol[]> = ".to_string();
    for k in 1..=alts.len() {
        want += &format!("prodIdx extends {} ? actions.Action{}<symbolStack> : ", k, k);
    }
    want += "`error: invalid production idx: ${prodIdx}`;";
    ensure!(bare(&act[..first]) == bare(&want), "{}: the dispatch is {}, expected {}", gt, bare(&act[..first]), bare(&want));
    let mut rest = &act[first..];
    let mut named = false;
    for (i, (gp, a)) in alts.iter().enumerate() {
        let k = i + 1;
        let p = gr.get_production(typelalr::lalr::item::ProductionIdx(k as u32)).ok_or(format!("{}: no production {}", gt, k))?;
        ensure!(p.name.0 == gp.name && p.input_tokens.iter().filter_map(gram::sym_of).eq(a.syms.iter().map(|s| s.1.clone())), "{}: production {} is not alternative {}", gt, k, k);
        let next = format!("type Action{}<", k + 1);
        let end = rest.find(&next).unwrap_or_else(|| rest.rfind('}').unwrap_or(rest.len()));
        let got = bare(&rest[..end]);
        rest = &rest[end..];
        let mut w = format!("type Action{}<symbolStack extends type_defs.Symbol[]> = U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues] ? poppedValues extends [", k, a.syms.len());
        let mut v = 0;
        let (mut conds, mut elses) = (vec![], vec![]);
        for (j, (n, s)) in a.syms.iter().enumerate() {
            let pos = j + 1;
            match n {
                None => {
                    w += &format!("infer var{},", v);
                    v += 1;
                }
                Some(n) => {
                    named = true;
                    w += &format!("infer __{},", n);
                    let token = format!("__{} extends {{ kind: \"token\", token: L.Token }}", n);
                    let not = format!("`error: not a token (pos \\`{}\\`, Action{})`", pos, k);
                    let inv = format!("`error: invalid symbol (pos \\`{}\\`, Action{})`", pos, k);
                    match s {
                        S::Nt(m) => {
                            conds.push(format!("__{} extends {{ kind : \"{}\", value: infer {} extends {} }}", n, m, n, m));
                            elses.push(format!("\"error: invalid symbol (pos `{}`, Action{})\"", pos, k));
                        }
                        S::Lit(x) => {
                            conds.push(token);
                            conds.push(format!("__{}['token']['value'] extends infer {} extends '{}'", n, n, ts_lit(x)));
                            elses.push(not);
                            elses.push(inv);
                        }
                        S::Rx(_) => {
                            conds.push(token);
                            conds.push(format!("__{}['token']['value'] extends infer {} extends string", n, n));
                            elses.push(not);
                            elses.push(inv);
                        }
                    }
                }
            }
        }
        w += "] ? newStack extends type_defs.Symbol[] ? ";
        for c in &conds {
            w += &format!("{} ? ", c);
        }
        w += &format!("[{{ kind: '{}', value: {} }},...newStack]", gp.name, a.code);
        for e in elses.iter().rev() {
            w += &format!(" : {}", e);
        }
        w += &format!(" : `unreachable: \\`newStack\\` should always be a type_defs.Symbol[] (Action{})`", k);
        w += &format!(" : `error: popping off symbol Stack Action{}`", k);
        w += " : 'unreachable: inferring popped values never fails'";
        ensure!(got == bare(&w), "{}: action {} is\n{}\nexpected\n{}", gt, k, got, bare(&w));
    }
    ensure!(bare(rest) == "}", "{}: trailing text {:?}", gt, rest);
    Ok(named)
}
fn c18(case: &Value) -> R {
    let n = case["n"].as_u64().unwrap();
    let mut s = String::new();
    typelalr::codegen::lex_gen::gen_arithmetic(&mut s, n as u32);
    let toks = ts::tokens(&s)?;
    for (name, up) in [("SuccTable", true), ("PredTable", false)] {
        let t = ts::type_decl(&toks, name)?;
        let mut got: Vec<(u64, u64)> = t.obj()?.iter().map(|(k, v)| Ok((k.parse().map_err(|_| format!("key {}", k))?, v.num()?))).collect::<Result<_, String>>()?;
        got.sort();
        let want: Vec<(u64, u64)> = (0..n).map(|i| if up { (i, i + 1) } else { (i + 1, i) }).collect();
        if got != want {
            let d = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
            return Err(format!("bound {}: entry {} of {} is {:?}, expected {:?}", n, d, name, got.get(d), want.get(d)));
        }
    }
    Ok(n > 1)
}
fn c19(case: &Value) -> R {
    let g = G::from_json(&case["grammar"]);
    let mut text = g.to_text();
    if case["open"].as_bool().unwrap_or(false) {
        // no comma after the last alternative
        text = text.replace(",\n]\n", "\n]\n");
    }
    let bump = Bump::new();
    let got = typelalr::parse_grammar(&bump, &text);
    let bump2 = Bump::new();
    let want = g.to_ast(&bump2);
    ensure!(got.len() == want.len(), "{}: {} groups", text, got.len());
    for (a, b) in got.iter().zip(&want) {
        ensure!(a.name == b.name && a.is_start == b.is_start && a.ts_code == b.ts_code, "{}: group read as {} start {} type {:?}", text, a.name, a.is_start, a.ts_code);
        ensure!(a.bodies.len() == b.bodies.len(), "{}: {} alternatives of {}", text, a.bodies.len(), a.name);
        for (x, y) in a.bodies.iter().zip(&b.bodies) {
            ensure!(x.mapping_fn == y.mapping_fn, "{}: code read as {:?}, expected {:?}", text, x.mapping_fn, y.mapping_fn);
            ensure!(x.input_tokens == y.input_tokens, "{}: symbols read as {:?}, expected {:?}", text, x.input_tokens, y.input_tokens);
        }
    }
    Ok(want.len() > 1)
}

pub fn check(prop: &str, case: &Value) -> R {
    match prop {
        "C01" => c01(case),
        "C02" => c02(case),
        "C03" => c03(case),
        "C04" => c04(case),
        "C05" => c05(case),
        "C06" => c06(case),
        "C07" => c07(case),
        "C08" => c08(case),
        "C09" => c09(case),
        "C10" => c10(case),
        "C11" => c11(case),
        "C12" => parse_check(case, true),
        "C13" => parse_check(case, false),
        "C14" => c14(case),
        "C15" => c15(case),
        "C16" => c16(case),
        "C17" => c17(case),
        "C18" => c18(case),
        "C19" => c19(case),
        p => Err(format!("unknown property {}", p)),
    }
}

// ---------------------------------------------------------------------------------------------------- generators
pub fn random_regex(r: &mut Rng, depth: usize) -> String {
    const CLASSES: &[&str] = &["[a-c]", "[b-z]", "[^a]", "[a-m0-9]", "[c-l]", "[ab]", "[é-ü]", "[a-b][b-c]", ".", "[^\\n\"]", "[0-9]", "(?-u:[a-b])", "[a日]"];
    const CHARS: &[&str] = &["a", "b", "c", "a", "b", "é", "日", "\\+", "\\n", " ", "0"];
    if depth == 0 {
        return if r.p(1, 4) { r.pick(CLASSES).to_string() } else { r.pick(CHARS).to_string() };
    }
    match r.n(12) {
        0 => r.pick(CLASSES).to_string(),
        1 => r.pick(CHARS).to_string(),
        2 | 3 | 4 => format!("{}{}", random_regex(r, depth - 1), random_regex(r, depth - 1)),
        5 | 6 => format!("({}|{})", random_regex(r, depth - 1), random_regex(r, depth - 1)),
        7 => format!("(?:{}|{}|{})", random_regex(r, depth - 1), random_regex(r, depth - 1), random_regex(r, depth - 1)),
        8 => format!("({})*", random_regex(r, depth - 1)),
        9 => format!("({})+", random_regex(r, depth - 1)),
        10 => format!("({})?", random_regex(r, depth - 1)),
        _ => match r.n(6) {
            0 => "()".into(),
            1 => format!("(|{})", random_regex(r, depth - 1)),
            2 => format!("({}|)", random_regex(r, depth - 1)),
            3 => format!("({})*?", random_regex(r, depth - 1)),
            4 => format!("({})+{}", random_regex(r, depth - 1), random_regex(r, depth - 1)),
            _ => format!("()({})", random_regex(r, depth - 1)),
        },
    }
}
const REGEXES: &[&str] = &[
    "", "a", "ab", "abc", "a|b", "a|b|c", "a*", "a+", "a?", "(a|b)*abb", "(a*)*", "(a+)+", "(a?)?", "(a?)*", "(a*)+", "(a*)?", "()", "(|a)", "(a|)",
    "()*", "()+", "()?", "a()b", "a()*b", "(a|()b)", "[a-z]", "[a-z]+", "[a-zA-Z_][a-zA-Z0-9_]*", "\".*\"", "for", "[0-9]+(\\.[0-9]+)?", "[^a]", ".",
    ".*", "a.b", "é+", "日本", "[é-ü]a", "(ab|ac)", "(ab|a)(bc|c)?", "a*a", "a*b*c*", "(a|b)(a|b)(a|b)", "((a))", "(((a|b)c)*d)+", "a|ab|abc", "[a-c][b-d]",
    "[a-bd-e]", "[a-c]|[b-d]|[c-e]", "x*y?z+", "(?-u:[a-b])+", "\\+\\*", "a b", "\\n", "[ \\n]+", "(a b)+", "\\x00", "\\x{10FFFF}", "[\\x00-\\x{10FFFF}]",
];
fn random_input(r: &mut Rng, alphabet: &[char]) -> String {
    let n = r.n(10);
    (0..n).map(|_| *r.pick(alphabet)).collect()
}
fn random_defs(r: &mut Rng) -> Value {
    const POOL: &[&str] = &["a", "b", "ab", "abc", "a+", "[a-c]+", "for", "fo", "f[a-z]*", "[a-z]+", "[0-9]+", "a*b", "(ab)+", "a+b+c", "é", "é+", "日本", "\".*\"", "\"[^\"]*\"", " ", " +", "\\n", " x", "a b", "a ", "[^a]", ".", "0|1", "a|b|c", "x?y", "()", "a?", "[a-b]", "[b-c]", "\\+", "\\+\\+", "<", "<=", "<=>", "a\\n", "b b b"];
    let n = 1 + r.n(4);
    json!((0..n).map(|i| {
        let re = if r.p(1, 4) { random_regex(r, 2) } else { r.pick(POOL).to_string() };
        let name = if r.p(1, 6) { format!("T{}", r.n(n)) } else if r.p(1, 8) { r.pick(&["say \"x\"", "a\\b", "it's", "line\nbreak", "é"]).to_string() } else { format!("T{}", i) };
        json!([name, re, r.p(1, 2)])
    }).collect::<Vec<_>>())
}
fn lex_inputs_random(r: &mut Rng, defs: &Value) -> Vec<String> {
    let mut a: Vec<char> = defs.as_array().unwrap().iter().flat_map(|d| d[1].as_str().unwrap().chars().collect::<Vec<_>>()).filter(|c| !"?*+()[]|^\\:".contains(*c)).collect();
    a.extend([' ', 'a', 'b', 'é', '\n', '\t', '日']);
    (0..25).map(|_| random_input(r, &a)).collect()
}
const DEFS: &[&[(&str, &str)]] = &[
    &[("for", "for"), ("ident", "[a-z]+")],
    &[("ident", "[a-z]+"), ("for", "for")],
    &[("ident", "[a-z]*"), ("for", "for"), ("num", "[0-9]+")],
    &[("s", "\".*\"")],
    &[("a", "a"), ("abc", "abc"), ("b", "b")],
    &[("a", "a+"), ("b", "a+b"), ("c", "c")],
    &[("lt", "<"), ("le", "<="), ("sp", "<=>")],
    &[("ws", " x"), ("a", "a")],
    &[("nl", "\n"), ("a", "a")],
    &[("x", "a b"), ("a", "a"), ("b", "b")],
    &[("e", "é"), ("j", "日本"), ("w", "[a-z]+")],
    &[("a", "a|b"), ("b", "b|c"), ("c", "a|c")],
    &[("k1", "if"), ("k2", "in"), ("k3", "i"), ("id", "[a-z]+")],
    &[("a", "a"), ("a", "b"), ("c", "[a-c]")],
    &[("e", ""), ("a", "a")],
    &[("any", "."), ("sp", " "), ("a", "a")],
    &[("n", "[0-9]+"), ("f", "[0-9]+\\.[0-9]+"), ("dot", "\\.")],
    &[("c", "/\\*[^*]*\\*/"), ("d", "/"), ("m", "\\*")],
];

fn small_grammars() -> Vec<String> {
    // every grammar with one or two non-terminals over two terminals in a small shape
    let rhs: Vec<&str> = vec!["'a'", "'b'", "S", "A", "'a' S", "S 'a'", "A 'b'", "'b' A", "A A", "S S", "A S", "'a' A 'b'"];
    let mut out = vec![];
    for i in 0..rhs.len() {
        for j in i + 1..rhs.len() {
            for (a, b) in [("'a'", ""), ("'a'", "A 'b'"), ("'b'", "'a' A"), ("S", "'a'"), ("'a' S", "'b'")] {
                let a2 = if b.is_empty() { a.to_string() } else { format!("{} | {}", a, b) };
                out.push(format!("S -> {} | {} ; A -> {}", rhs[i], rhs[j], a2));
            }
        }
    }
    out
}

/// grammars beyond the sizes the random ones have: long alternatives, many alternatives, terminals and non-terminals, long chains
fn big_grammars() -> Vec<String> {
    let join = |v: Vec<String>, s: &str| v.join(s);
    let mut out = vec![];
    out.push(format!("S -> {} | 'z' S", join((0..24).map(|i| format!("'t{}'", i)).collect(), " ")));
    out.push(format!("S -> {} | 'z' ; A -> 'a' | 'b' A", join((0..12).map(|i| if i % 3 == 1 { "A".into() } else { format!("'t{}'", i) }).collect(), " ")));
    out.push(format!("S -> T S | T ; T -> {}", join((0..40).map(|i| format!("'k{}'", i)).collect(), " | ")));
    out.push(format!("S -> N0 'z' ; {} ; N20 -> 'a' | '(' S ')'", join((0..20).map(|i| format!("N{} -> N{} | N{} 'o{}' N{}", i, i + 1, i, i, i + 1)).collect(), " ; ")));
    out.push(format!("S -> {} ; {}", join((0..24).map(|i| format!("'p{}' N{} 'q{}'", i, i % 6, i)).collect(), " | "), join((0..6).map(|i| format!("N{} -> 'x' | 'x' N{}", i, (i + 1) % 6)).collect(), " ; ")));
    out.push(format!("S -> {} ; X -> 'x' | 'y' X", join((0..20).map(|i| format!("'a{}' X 'b{}'", i, i)).collect(), " | ")));
    out.push(format!("S -> {} ; T -> 't' | 'u' 'v'", join((0..150).map(|i| format!("'w{}' T 'z'", i)).collect(), " | ")));
    out.push(format!("S -> {} ; {}", join((0..130).map(|i| format!("M{}", i)).collect(), " | "), join((0..130).map(|i| format!("M{} -> 'm{}'", i, i)).collect(), " ; ")));
    out
}

pub fn generate(prop: &str, run: &mut Run) {
    let mut r = Rng(run.seed ^ 0x5151);
    match prop {
        "C01" | "C02" => {
            let mk = |res: Vec<String>, r: &mut Rng, single: bool| {
                let mut a = alphabet_of(&res);
                a.extend(['a', 'b', 'c', 'é', '日', 'z', '+']);
                let inputs: Vec<String> = (0..12).map(|_| random_input(r, &a)).collect();
                if single { json!({"regex": res[0], "inputs": inputs}) } else { json!({"regexes": res, "inputs": inputs}) }
            };
            let single = prop == "C01";
            for x in REGEXES {
                run.fixed(|| mk(vec![x.to_string()], &mut Rng(1), single));
            }
            let digits = "[0-9]|".repeat(20) + "x";
            for x in ["abcdefghijklmnopqrstuvwxyz".repeat(10), digits, "(a|b)*a(a|b)(a|b)(a|b)(a|b)".into(), (0..40).map(|i| format!("[{}-z]", (b'a' + i % 26) as char)).collect::<String>()] {
                run.fixed(|| {
                    let mut c = mk(vec![x.clone()], &mut Rng(2), single);
                    c["inputs"].as_array_mut().unwrap().extend([json!("abcdefghijklmnopqrstuvwxyz".repeat(10)), json!("ababaabab"), json!("z".repeat(40))]);
                    c
                });
            }
            if !single {
                for d in DEFS {
                    run.fixed(|| mk(d.iter().map(|x| x.1.to_string()).collect(), &mut Rng(1), false));
                }
            }
            while run.more() {
                let d = 1 + r.n(3);
                let mut res = vec![random_regex(&mut r, d)];
                while !single && r.p(1, 3) && res.len() < 4 {
                    res.push(random_regex(&mut r, 2));
                }
                let c = mk(res, &mut r, single);
                run.case(c);
            }
        }
        "C03" => {
            // all sets of three ranges over 0..=5, then random larger ones
            let pts: Vec<(u32, u32)> = (0..=5).flat_map(|a| (a..=5).map(move |b| (a, b))).collect();
            for i in 0..pts.len() {
                for j in i..pts.len() {
                    for k in j..pts.len() {
                        run.fixed(|| json!({"ranges": [pts[i], pts[j], pts[k]]}));
                    }
                }
            }
            while run.more() {
                let n = if r.p(1, 30) { 20 + r.n(60) } else { 2 + r.n(7) };
                let m = *r.pick(&[6, 9, 14, 40, 0x110000]);
                let rs: Vec<(usize, usize)> = (0..n).map(|_| { let a = r.n(m); let b = r.n(m + 1); if r.p(1, 12) { (a, b) } else { (a.min(b), a.max(b)) } }).collect();
                run.case(json!({"ranges": rs}));
            }
        }
        "C04" | "C05" | "C15" => {
            for (k, d) in DEFS.iter().enumerate() {
                run.fixed(|| {
                    let defs = json!(d.iter().enumerate().map(|(i, (n, x))| json!([n, x, (i + k) % 2 == 0])).collect::<Vec<_>>());
                    let inputs = lex_inputs_random(&mut Rng(k as u64), &defs);
                    json!({"defs": defs, "inputs": inputs})
                });
            }
            {
                let many: Vec<Value> = (0..60).map(|i| json!([format!("k{}", i), format!("k{}", i), i % 2 == 0])).chain(std::iter::once(json!(["id", "[a-z][a-z0-9]*", true]))).collect();
                let long = "k1 k59 k60 zz ".repeat(30) + "k\té";
                run.fixed(|| json!({"defs": many, "inputs": [long.clone(), "k10k11", ""]}));
                let over: Vec<Value> = (0..12).map(|i| json!([format!("c{}", i), format!("[{}-{}]+", (b'a' + i) as char, (b'c' + 2 * i.min(11)) as char), i % 3 == 0])).collect();
                run.fixed(|| json!({"defs": over, "inputs": ["abcdefghijklmnopqrstuvwxyz", "zyxw", "m n o"]}));
                run.fixed(|| json!({"defs": [["long", "abcdefghijklmnopqrstuvwxyz".repeat(8), true], ["a", "[a-z]", false]], "inputs": ["abcdefghijklmnopqrstuvwxyz".repeat(8), "abcdefghijklmnopqrstuvwxyz".repeat(9)]}));
            }
            while run.more() {
                let defs = random_defs(&mut r);
                let inputs = lex_inputs_random(&mut r, &defs);
                run.case(json!({"defs": defs, "inputs": inputs}));
            }
        }
        "C18" => {
            for n in 0..40 {
                run.fixed(|| json!({"n": n}));
            }
            for n in [1000, 257, 70000] {
                run.fixed(|| json!({"n": n}));
            }
            while run.more() {
                let n = r.n(1500);
                run.case(json!({"n": n}));
            }
        }
        "C19" => {
            while run.more() {
                let g = read_grammar(&mut r);
                run.case(json!({"open": r.p(1, 2), "grammar": g.to_json()}));
            }
        }
        "C14" => {
            while run.more() {
                let mut g = gram::random(&mut r, 3, 4, 3, 3, false);
                let lits = ["+", "(", "a|b", "[x]", "\\\\", "é", "日本", "a", "ab", "abc", ".", "*", "{2}", "^", "$", "#", "a b", "=>", "\\\"", "if", "EOF", "-", "~", "&&", "\\+"];
                let rxs = ["[0-9]+", "[a-z]+", "é+", "a*b", "\\\\+", "x|y", "\"[^\"]*\"", "[A-Z][a-z]*"];
                for gp in g.0.iter_mut() {
                    for a in gp.alts.iter_mut() {
                        for s in a.syms.iter_mut() {
                            if let S::Lit(_) = s.1 {
                                s.1 = if r.p(1, 4) { S::Rx(r.pick(&rxs).to_string()) } else { S::Lit(r.pick(&lits).to_string()) };
                            }
                        }
                    }
                }
                gram::decorate(&mut r, &mut g);
                let inputs: Vec<String> = (0..8).map(|_| random_input(&mut r, &['a', 'b', '+', '.', ' ', '7', 'é', '\\', 'x', '\n', 'i', 'f'])).collect();
                run.case(json!({"grammar": g.to_json(), "inputs": inputs, "seed": r.next() >> 1}));
            }
        }
        _ => {
            let codegen = prop == "C16" || prop == "C17" || prop == "C06";
            for (i, m) in gram::CORPUS.iter().enumerate() {
                run.fixed(|| {
                    let mut g = G::mini(m);
                    if codegen {
                        gram::decorate(&mut Rng(i as u64), &mut g);
                    }
                    json!({"grammar": g.to_json(), "seed": i})
                });
            }
            for (i, m) in big_grammars().iter().enumerate() {
                run.fixed(|| {
                    let mut g = G::mini(m);
                    if codegen {
                        gram::decorate(&mut Rng(i as u64), &mut g);
                    }
                    json!({"grammar": g.to_json(), "seed": i})
                });
            }
            for (i, m) in small_grammars().iter().enumerate() {
                run.fixed(|| {
                    let mut g = G::mini(m);
                    if codegen {
                        gram::decorate(&mut Rng(i as u64), &mut g);
                    }
                    json!({"grammar": g.to_json(), "seed": i})
                });
            }
            while run.more() {
                let (a, b, c, d) = *r.pick(&[(2, 2, 2, 3), (3, 3, 3, 3), (4, 4, 2, 3), (2, 4, 3, 4), (5, 3, 2, 2)]);
                let mut g = gram::random(&mut r, a, b, c, d, true);
                if codegen {
                    if r.p(1, 2) {
                        let lits = ["+", "\\\\", "\\\"", "'", "é", "a'b", "{", "}", "`", "$", "line\nbreak", "\"", "//", "/*", "EOF2"];
                        for gp in g.0.iter_mut() {
                            for al in gp.alts.iter_mut() {
                                for s in al.syms.iter_mut() {
                                    if let S::Lit(x) = &s.1 {
                                        let k = x.bytes().next().unwrap() as usize;
                                        s.1 = S::Lit(lits[k % lits.len()].into());
                                    }
                                }
                            }
                        }
                    }
                    gram::decorate(&mut r, &mut g);
                }
                run.case(json!({"grammar": g.to_json(), "seed": r.next() >> 1}));
            }
        }
    }
}

/// a grammar as text: names, literals, regexes and code full of unusual characters
fn read_grammar(r: &mut Rng) -> G {
    const NAMES: &[&str] = &["A", "_x", "Foo1", "exporter", "start_", "rr", "Z9_", "b", "R", "starts", "_", "__1"];
    const PIECES: &[&str] = &["a", "é", "日", "\\\\", "\\\"", " ", "(", ")", "[", "]", "=>", "'", "`", "<", ">", ":", ",", "0-9", "+", "\u{1F600}", "r", "//", "{", "\t", "\u{e9}x", "export", "|", "#"];
    const CODE: &[&str] = &["a", "é", "日本", "\"", "'", "(", ")", "[", "]", "=>", " ", "{ k: 1 }", ",", "<x: y>", "\\", "\\n", "`", "r\"x\"", "\u{1F600}", "=", ":", "export start", "\t", "// c"];
    let ng = 1 + r.n(4);
    let text = |r: &mut Rng, p: &[&str], m: usize| -> String { (0..r.n(m)).map(|_| *r.pick(p)).collect() };
    let sym = |r: &mut Rng| match r.n(3) {
        0 => S::Nt(r.pick(NAMES).to_string()),
        1 => S::Rx(text(r, PIECES, 6)),
        _ => S::Lit(text(r, PIECES, 6)),
    };
    let mut gs = vec![];
    for _ in 0..ng {
        let na = r.n(4);
        let mut alts = vec![];
        for _ in 0..na {
            let ns = 1 + r.n(4);
            alts.push(Alt2 { syms: (0..ns).map(|_| (if r.p(1, 2) { Some(r.pick(NAMES).to_string()) } else { None }, sym(r))).collect(), code: text(r, CODE, 6) });
        }
        if !alts.is_empty() && r.p(1, 6) {
            // an alternative written twice
            let k = r.n(alts.len());
            let a: Alt2 = alts[k].clone();
            alts.insert(k, a);
        }
        gs.push(gram::Group { name: r.pick(NAMES).to_string(), start: r.p(1, 3), export: r.p(1, 2), ty: text(r, CODE, 5), alts });
    }
    G(gs)
}
use gram::Alt as Alt2;
