//! A small reader for the emitted TypeScript: tokens and object/tuple types.
use std::iter::Peekable;
use std::str::Chars;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Str(String),
    Tmpl(String),
    Num(String),
    Id(String),
    P(char),
}

fn string(it: &mut Peekable<Chars>, q: char) -> Result<String, String> {
    let mut s = String::new();
    loop {
        match it.next() {
            None => return Err("unterminated string literal".into()),
            Some(c) if c == q => return Ok(s),
            Some('\n') | Some('\r') if q != '`' => return Err(format!("line break inside the string literal {:?}", s)),
            Some('\\') => match it.next() {
                None => return Err("unterminated string literal".into()),
                Some('n') => s.push('\n'),
                Some('r') => s.push('\r'),
                Some('t') => s.push('\t'),
                Some('b') => s.push('\u{8}'),
                Some('f') => s.push('\u{c}'),
                Some('v') => s.push('\u{b}'),
                Some('0') => s.push('\0'),
                Some('\n') => (),
                Some('x') => {
                    let h: String = it.take(2).collect();
                    s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad \\x escape")?);
                }
                Some('u') => {
                    let h: String = if it.peek() == Some(&'{') {
                        it.next();
                        it.take_while(|c| *c != '}').collect()
                    } else {
                        it.take(4).collect()
                    };
                    s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad \\u escape")?);
                }
                Some(c) => s.push(c),
            },
            Some(c) => s.push(c),
        }
    }
}

/// tokens, and whether a line break precedes each
#[derive(Default)]
pub struct Toks {
    pub t: Vec<Tok>,
    pub nl: Vec<bool>,
}
impl Toks {
    fn get(&self, i: usize) -> Option<&Tok> {
        self.t.get(i)
    }
}

pub fn tokens(s: &str) -> Result<Toks, String> {
    let mut it = s.chars().peekable();
    let mut all = Toks::default();
    let mut nl = true;
    while let Some(c) = it.next() {
        if c.is_whitespace() {
            nl |= c == '\n' || c == '\r';
            continue;
        }
        let mut out = vec![];
        if c == '/' && it.peek() == Some(&'*') {
            it.next();
            let mut prev = ' ';
            for d in it.by_ref() {
                if prev == '*' && d == '/' {
                    break;
                }
                prev = d;
            }
            continue;
        }
        if c == '/' && it.peek() == Some(&'/') {
            for d in it.by_ref() {
                if d == '\n' {
                    break;
                }
            }
            continue;
        }
        if c == '"' || c == '\'' {
            out.push(Tok::Str(string(&mut it, c)?));
        } else if c == '`' {
            out.push(Tok::Tmpl(string(&mut it, c)?));
        } else if c.is_ascii_digit() {
            let mut t = c.to_string();
            while let Some(d) = it.peek() {
                if d.is_ascii_alphanumeric() {
                    t.push(*d);
                    it.next();
                } else {
                    break;
                }
            }
            out.push(Tok::Num(t));
        } else if c.is_alphabetic() || c == '_' || c == '$' {
            let mut t = c.to_string();
            while let Some(d) = it.peek() {
                if d.is_alphanumeric() || *d == '_' || *d == '$' {
                    t.push(*d);
                    it.next();
                } else {
                    break;
                }
            }
            out.push(Tok::Id(t));
        } else {
            out.push(Tok::P(c));
        }
        for t in out {
            all.t.push(t);
            all.nl.push(nl);
            nl = false;
        }
    }
    Ok(all)
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Obj(Vec<(String, V)>),
    Arr(Vec<V>),
    Str(String),
    Num(u64),
    Id(String),
}
impl V {
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn obj(&self) -> Result<&Vec<(String, V)>, String> {
        match self {
            V::Obj(o) => {
                for (i, (k, _)) in o.iter().enumerate() {
                    if o[..i].iter().any(|(n, _)| n == k) {
                        return Err(format!("key {:?} declared twice", k));
                    }
                }
                Ok(o)
            }
            v => Err(format!("expected an object type, found {:?}", v)),
        }
    }
    pub fn arr(&self) -> Result<&Vec<V>, String> {
        match self {
            V::Arr(o) => Ok(o),
            v => Err(format!("expected a tuple type, found {:?}", v)),
        }
    }
    pub fn num(&self) -> Result<u64, String> {
        match self {
            V::Num(n) => Ok(*n),
            v => Err(format!("expected a number, found {:?}", v)),
        }
    }
}

/// parse one value; members are separated by `,`, `;` or a line break
pub fn value(t: &Toks, i: &mut usize) -> Result<V, String> {
    let e = |i: usize| format!("unexpected {:?}", t.get(i));
    match t.get(*i) {
        Some(Tok::P('{')) => {
            *i += 1;
            let mut o = vec![];
            let mut sep = true;
            loop {
                match t.get(*i) {
                    Some(Tok::P('}')) => {
                        *i += 1;
                        return Ok(V::Obj(o));
                    }
                    Some(Tok::P(',')) | Some(Tok::P(';')) => {
                        sep = true;
                        *i += 1
                    }
                    Some(Tok::Str(k)) | Some(Tok::Id(k)) | Some(Tok::Num(k)) => {
                        if !sep && !t.nl[*i] {
                            return Err(format!("member {:?} is not separated from the one before", k));
                        }
                        sep = false;
                        *i += 1;
                        if t.get(*i) != Some(&Tok::P(':')) {
                            return Err(e(*i));
                        }
                        *i += 1;
                        let v = value(t, i)?;
                        o.push((k.clone(), v));
                    }
                    _ => return Err(e(*i)),
                }
            }
        }
        Some(Tok::P('[')) => {
            *i += 1;
            let mut o = vec![];
            let mut need = false;
            loop {
                match t.get(*i) {
                    Some(Tok::P(']')) => {
                        *i += 1;
                        return Ok(V::Arr(o));
                    }
                    Some(Tok::P(',')) => {
                        if !need {
                            return Err("stray comma in a tuple type".into());
                        }
                        need = false;
                        *i += 1
                    }
                    _ => {
                        if need {
                            return Err("missing comma in a tuple type".into());
                        }
                        o.push(value(t, i)?);
                        need = true;
                    }
                }
            }
        }
        Some(Tok::Str(s)) => {
            *i += 1;
            Ok(V::Str(s.clone()))
        }
        Some(Tok::Num(n)) => {
            *i += 1;
            Ok(V::Num(n.parse().map_err(|_| format!("bad number {}", n))?))
        }
        Some(Tok::Id(n)) => {
            *i += 1;
            Ok(V::Id(n.clone()))
        }
        _ => Err(e(*i)),
    }
}

/// the value of the only `type NAME = ...`
pub fn type_decl(ts: &Toks, name: &str) -> Result<V, String> {
    let t = &ts.t;
    let at: Vec<usize> = (0..t.len().saturating_sub(2))
        .filter(|i| t[*i] == Tok::Id("type".into()) && t[i + 1] == Tok::Id(name.into()) && t[i + 2] == Tok::P('='))
        .collect();
    match at[..] {
        [i] => value(ts, &mut (i + 3)).map_err(|e| format!("type {}: {}", name, e)),
        [] => Err(format!("no declaration of type {}", name)),
        _ => Err(format!("type {} is declared {} times", name, at.len())),
    }
}
