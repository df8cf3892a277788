//! Token printing with line breaks, so that verifier messages have useful lines.
pub fn pretty(
    toks: proc_macro2::TokenStream,
    base: usize,
) -> String
{
    let mut p = P { out: String::new(), ind: base, bol: true };
    p.stream(toks);
    p.out
}
struct P
{
    out: String,
    ind: usize,
    bol: bool,
}
impl P
{
    fn nl(&mut self)
    {
        if !self.bol {
            while self.out.ends_with(' ') {
                self.out.pop();
            }
            self.out.push('\n');
            self.bol = true;
        }
    }

    fn put(
        &mut self,
        s: &str,
        glue: bool,
    )
    {
        if self.bol {
            for _ in 0 .. self.ind {
                self.out.push_str("    ");
            }
            self.bol = false;
        }
        self.out.push_str(s);
        if !glue {
            self.out.push(' ');
        }
    }

    fn stream(
        &mut self,
        ts: proc_macro2::TokenStream,
    )
    {
        use proc_macro2::{Delimiter, Spacing, TokenTree::*};
        let v: Vec<_> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        if g.stream().is_empty() {
                            self.put("{}", false);
                        }
                        else {
                            self.put("{", false);
                            self.nl();
                            self.ind += 1;
                            self.stream(g.stream());
                            self.nl();
                            self.ind -= 1;
                            self.put("}", false);
                        }
                        let next_keeps = matches!(v.get(i + 1), Some(Ident(x)) if x == "else")
                            || matches!(v.get(i + 1), Some(Punct(_)) | Some(Group(_)));
                        if !next_keeps {
                            self.nl();
                        }
                    },
                    Delimiter::Parenthesis => {
                        while self.out.ends_with(' ') && !self.bol {
                            self.out.pop();
                        }
                        if matches!(i.checked_sub(1).and_then(|j| v.get(j)), Some(Punct(p)) if !matches!(p.as_char(), '!' | '&' | '*' | '.' | ':' | '>'))
                            || matches!(i.checked_sub(1).and_then(|j| v.get(j)), Some(Ident(x)) if is_kw(&x.to_string()))
                        {
                            self.put(" ", true);
                        }
                        self.put("(", true);
                        self.stream(g.stream());
                        while self.out.ends_with(' ') && !self.bol {
                            self.out.pop();
                        }
                        self.put(")", false);
                    },
                    Delimiter::Bracket => {
                        self.put("[", true);
                        self.stream(g.stream());
                        self.put("]", false);
                    },
                    Delimiter::None => self.stream(g.stream()),
                },
                Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';' | '.' | '?') && !self.bol {
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                    }
                    let glue = p.spacing() == Spacing::Joint || matches!(c, '.' | '&' | '\'' | '#');
                    self.put(&c.to_string(), glue);
                    if c == ';' {
                        self.nl();
                    }
                },
                Ident(x) => self.put(&x.to_string(), false),
                Literal(x) => self.put(&x.to_string(), false),
            }
        }
    }
}
fn is_kw(s: &str) -> bool
{
    matches!(s, "if" | "match" | "return" | "in" | "let" | "else" | "while" | "loop" | "break" | "as" | "mut" | "ref" | "move")
}
