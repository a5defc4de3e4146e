//! Independent reference for regex languages: position (Glushkov) automaton built straight from the Hir.
use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind};
use std::collections::BTreeSet;

type P = BTreeSet<usize>;

pub struct Rx {
    pos: Vec<Vec<(u32, u32)>>, // inclusive ranges
    follow: Vec<P>,
    first: P,
    last: P,
    pub nullable: bool,
}

struct Part {
    first: P,
    last: P,
    nullable: bool,
}

impl Rx {
    /// None when the regex uses a construct outside the property (anchors, counted repetitions, ...)
    pub fn new(h: &Hir) -> Option<Rx> {
        let mut r = Rx { pos: vec![], follow: vec![], first: P::new(), last: P::new(), nullable: false };
        let p = r.go(h)?;
        r.first = p.first;
        r.last = p.last;
        r.nullable = p.nullable;
        Some(r)
    }
    pub fn parse(s: &str) -> Option<Rx> {
        Rx::new(&regex_syntax::Parser::new().parse(s).ok()?)
    }
    /// the literal text `s`
    pub fn literal(s: &str) -> Rx {
        let cs: Vec<u32> = s.chars().map(|c| c as u32).collect();
        let n = cs.len();
        Rx {
            pos: cs.iter().map(|c| vec![(*c, *c)]).collect(),
            follow: (0..n).map(|i| if i + 1 < n { [i + 1].into() } else { P::new() }).collect(),
            first: if n > 0 { [0].into() } else { P::new() },
            last: if n > 0 { [n - 1].into() } else { P::new() },
            nullable: n == 0,
        }
    }
    fn leaf(&mut self, rs: Vec<(u32, u32)>) -> Part {
        let i = self.pos.len();
        self.pos.push(rs);
        self.follow.push(P::new());
        Part { first: [i].into(), last: [i].into(), nullable: false }
    }
    fn go(&mut self, h: &Hir) -> Option<Part> {
        Some(match h.kind() {
            HirKind::Empty => Part { first: P::new(), last: P::new(), nullable: true },
            HirKind::Literal(Literal::Unicode(c)) => self.leaf(vec![(*c as u32, *c as u32)]),
            HirKind::Literal(Literal::Byte(b)) => self.leaf(vec![(*b as u32, *b as u32)]),
            HirKind::Class(Class::Unicode(c)) => {
                self.leaf(c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect())
            }
            HirKind::Class(Class::Bytes(c)) => {
                self.leaf(c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect())
            }
            HirKind::Anchor(_) | HirKind::WordBoundary(_) => return None,
            HirKind::Repetition(rep) => {
                let mut p = self.go(&rep.hir)?;
                let (zero, many) = match rep.kind {
                    RepetitionKind::ZeroOrOne => (true, false),
                    RepetitionKind::ZeroOrMore => (true, true),
                    RepetitionKind::OneOrMore => (false, true),
                    RepetitionKind::Range(_) => return None,
                };
                if many {
                    for l in p.last.iter() {
                        self.follow[*l].extend(p.first.iter().copied());
                    }
                }
                p.nullable |= zero;
                p
            }
            HirKind::Group(g) => self.go(&g.hir)?,
            HirKind::Concat(es) => {
                let mut acc = Part { first: P::new(), last: P::new(), nullable: true };
                for e in es {
                    let p = self.go(e)?;
                    for l in acc.last.iter() {
                        self.follow[*l].extend(p.first.iter().copied());
                    }
                    if acc.nullable {
                        acc.first.extend(p.first.iter().copied());
                    }
                    if p.nullable {
                        acc.last.extend(p.last.iter().copied());
                    } else {
                        acc.last = p.last;
                    }
                    acc.nullable &= p.nullable;
                }
                acc
            }
            HirKind::Alternation(es) => {
                let mut acc = Part { first: P::new(), last: P::new(), nullable: false };
                for e in es {
                    let p = self.go(e)?;
                    acc.first.extend(p.first);
                    acc.last.extend(p.last);
                    acc.nullable |= p.nullable;
                }
                acc
            }
        })
    }
    fn at(&self, p: usize, c: char) -> bool {
        let c = c as u32;
        self.pos[p].iter().any(|(a, b)| *a <= c && c <= *b)
    }
    /// for k = 1.. : (prefix of length k is viable, prefix of length k matches); stops after the last viable one
    pub fn prefixes(&self, s: &[char]) -> Vec<bool> {
        let mut cur: P = self.first.clone();
        let mut out = vec![];
        for c in s {
            let now: P = cur.iter().copied().filter(|p| self.at(*p, *c)).collect();
            if now.is_empty() {
                break;
            }
            out.push(now.iter().any(|p| self.last.contains(p)));
            cur = now.iter().flat_map(|p| self.follow[*p].iter().copied()).collect();
        }
        out
    }
    pub fn matches(&self, s: &str) -> bool {
        let cs: Vec<char> = s.chars().collect();
        if cs.is_empty() {
            return self.nullable;
        }
        let p = self.prefixes(&cs);
        p.len() == cs.len() && p[cs.len() - 1]
    }
}
