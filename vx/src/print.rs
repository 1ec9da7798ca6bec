use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Print tokens with line breaks at braces and semicolons.
pub fn pretty(t: TokenStream) -> String {
    let mut s = String::new();
    go(t, &mut s, 0);
    s
}

fn nl(s: &mut String, d: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..d {
        s.push_str("    ");
    }
}

fn go(t: TokenStream, s: &mut String, d: usize) {
    let mut joint = false;
    for tt in t {
        if !joint && !s.is_empty() && !s.ends_with(|c: char| c == ' ' || c == '\n' || c == '(' || c == '[') {
            let skip = match &tt {
                TokenTree::Punct(p) => matches!(p.as_char(), ',' | ';' | '.' | '?'),
                TokenTree::Group(g) => {
                    g.delimiter() == Delimiter::Parenthesis
                        && s.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '!' || c == '>')
                        && !s.ends_with("=>") && !s.ends_with("->")
                        && !["if","match","while","in","return","for"].iter().any(|k| s.ends_with(&format!(" {}",k)) || s.ends_with(&format!("\n{}",k)))
                }
                _ => s.ends_with('.') && !s.ends_with(".."),
            };
            if !skip {
                s.push(' ');
            }
        }
        joint = false;
        match tt {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    s.push('{');
                    if !g.stream().is_empty() {
                        nl(s, d + 1);
                        go(g.stream(), s, d + 1);
                        nl(s, d);
                    }
                    s.push('}');
                    nl(s, d);
                }
                Delimiter::Parenthesis => {
                    s.push('(');
                    go(g.stream(), s, d);
                    s.push(')');
                }
                Delimiter::Bracket => {
                    s.push('[');
                    go(g.stream(), s, d);
                    s.push(']');
                }
                Delimiter::None => go(g.stream(), s, d),
            },
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                joint = p.spacing() == Spacing::Joint || p.as_char() == '\'' ;
                if p.as_char() == ';' {
                    nl(s, d);
                } else if (p.as_char() == '&' || p.as_char() == '!') && !joint {
                    joint = true; // no space after a prefix operator; harmless for a binary one
                }
            }
            o => s.push_str(&o.to_string()),
        }
    }
}
