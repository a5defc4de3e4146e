//! Prints a token stream, expanding the clause and hint markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Clauses(pub Vec<String>);

pub fn print(ts: TokenStream, clauses: &Clauses) -> String {
    let mut p = P { out: String::new(), ind: 0, nl: true, c: clauses, glue: false };
    p.stream(ts);
    p.out
}

struct P<'a> {
    out: String,
    ind: usize,
    nl: bool,
    glue: bool,
    c: &'a Clauses,
}

fn marker(tts: &[TokenTree], name: &str) -> Option<usize> {
    // name ! (N) ;
    if tts.len() >= 4 {
        if let (TokenTree::Ident(i), TokenTree::Punct(b), TokenTree::Group(g), TokenTree::Punct(s)) =
            (&tts[0], &tts[1], &tts[2], &tts[3])
        {
            if i == name && b.as_char() == '!' && s.as_char() == ';' {
                return g.stream().to_string().trim_end_matches("usize").trim().parse().ok();
            }
        }
    }
    None
}

impl<'a> P<'a> {
    fn newline(&mut self) {
        if !self.nl {
            self.out.push('\n');
            self.nl = true;
            self.glue = false;
        }
    }
    fn word(&mut self, s: &str) {
        if self.nl {
            for _ in 0..self.ind {
                self.out.push_str("  ");
            }
            self.nl = false;
        } else if !self.glue {
            self.out.push(' ');
        }
        self.glue = false;
        self.out.push_str(s);
    }
    fn raw(&mut self, s: &str) {
        self.newline();
        for l in s.lines() {
            for _ in 0..self.ind {
                self.out.push_str("  ");
            }
            self.out.push_str(l);
            self.out.push('\n');
        }
        self.nl = true;
    }
    fn stream(&mut self, ts: TokenStream) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < tts.len() {
            if let Some(k) = marker(&tts[i..], "__vx_hint") {
                let t = self.c.0[k].clone();
                self.raw(&t);
                i += 4;
                continue;
            }
            match &tts[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut inner = &inner[..];
                        if let Some(k) = marker(inner, "__vx_clause") {
                            let t = self.c.0[k].clone();
                            self.ind += 2;
                            self.raw(&t);
                            self.ind -= 2;
                            inner = &inner[4..];
                        }
                        self.word("{");
                        self.newline();
                        self.ind += 1;
                        self.stream(inner.iter().cloned().collect());
                        self.ind -= 1;
                        self.newline();
                        self.word("}");
                        // keep `else`, `)`, `;`, `,`, `.` on the same line
                        let stay = match tts.get(i + 1) {
                            Some(TokenTree::Ident(id)) => id == "else",
                            Some(TokenTree::Punct(_)) => true,
                            _ => false,
                        };
                        if !stay {
                            self.newline();
                        }
                    } else if g.delimiter() == Delimiter::None {
                        self.stream(g.stream());
                    } else {
                        self.glue = true;
                        if self.nl { self.glue = false; }
                        self.word(o);
                        self.glue = true;
                        self.stream(g.stream());
                        self.glue = true;
                        if self.nl { self.glue = false; }
                        self.word(c);
                    }
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    if matches!(ch, ';' | ',' | '.' | '?') {
                        if !self.nl { self.glue = true; }
                    }
                    self.word(&ch.to_string());
                    if p.spacing() == Spacing::Joint || ch == '.' {
                        self.glue = true;
                    }
                    if matches!(ch, '&' | '!' | '*') && false {
                        self.glue = true;
                    }
                    if ch == ';' {
                        self.newline();
                    }
                }
                t => self.word(&t.to_string()),
            }
            i += 1;
        }
    }
}
