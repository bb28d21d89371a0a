use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// A simple token printer with line breaks; placeholders are replaced afterwards.
pub fn print(ts: TokenStream) -> String {
    let mut p = P {
        out: String::new(),
        ind: 1,
        bol: true,
    };
    p.stream(ts, Delimiter::Brace);
    p.out
}

struct P {
    out: String,
    ind: usize,
    bol: bool,
}

impl P {
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
    }
    fn word(&mut self, s: &str, space: bool) {
        if self.bol {
            for _ in 0..self.ind {
                self.out.push_str("  ");
            }
            self.bol = false;
        } else if space {
            self.out.push(' ');
        }
        self.out.push_str(s);
    }
    fn stream(&mut self, ts: TokenStream, ctx: Delimiter) {
        let mut joint = true; // no space before the first token
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let n = toks.len();
        let mut i = 0;
        while i < n {
            match &toks[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        self.word("{", true);
                        if g.stream().is_empty() {
                            self.out.push('}');
                        } else {
                            self.ind += 1;
                            self.nl();
                            self.stream(g.stream(), Delimiter::Brace);
                            self.ind -= 1;
                            self.nl();
                            self.word("}", false);
                        }
                        let next_joins = match toks.get(i + 1) {
                            Some(TokenTree::Punct(p)) => {
                                matches!(p.as_char(), '.' | ',' | ';' | '?' | ')' | '=' | '<' | '>' | '&' | '|' | '+' | '-' | '*' | '/')
                            }
                            Some(TokenTree::Ident(id)) => id == "else" || id == "as",
                            None => true,
                            _ => false,
                        };
                        if ctx == Delimiter::Brace && !next_joins {
                            self.nl();
                        }
                        joint = false;
                    } else {
                        let sp = !joint
                            && !matches!(g.delimiter(), Delimiter::Parenthesis | Delimiter::Bracket if i > 0 && matches!(&toks[i-1], TokenTree::Ident(id) if !is_kw(&id.to_string())));
                        self.word(o, sp);
                        self.stream(g.stream(), g.delimiter());
                        self.out.push_str(c);
                        joint = false;
                    }
                }
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if s.starts_with("__VXP_") {
                        self.nl();
                        self.word(&s, false);
                        self.nl();
                        joint = true;
                    } else {
                        self.word(&s, !joint);
                        joint = false;
                    }
                }
                TokenTree::Literal(l) => {
                    self.word(&l.to_string(), !joint);
                    joint = false;
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    let nospace = joint || matches!(ch, ',' | ';' | '.' | '?');
                    self.word(&ch.to_string(), !nospace);
                    joint = p.spacing() == Spacing::Joint || ch == '\'' || ch == '.';
                    if ch == ';' && ctx != Delimiter::Bracket {
                        self.nl();
                    }
                    if ch == ',' && ctx == Delimiter::Brace {
                        self.nl();
                    }
                }
            }
            i += 1;
        }
    }
}

fn is_kw(s: &str) -> bool {
    matches!(s, "if" | "match" | "in" | "return" | "let" | "while" | "else" | "mut" | "as" | "for" | "break")
}
