//! Minimal token printer: one statement per line, so that verifier messages have useful lines.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn fmt(ts: &TokenStream) -> String {
    let mut o = String::new();
    go(ts.clone(), &mut o, 0);
    o
}

fn nl(o: &mut String, ind: usize) {
    while o.ends_with(' ') {
        o.pop();
    }
    if !o.ends_with('\n') {
        o.push('\n');
    }
    for _ in 0..ind {
        o.push_str("  ");
    }
}

fn go(ts: TokenStream, o: &mut String, ind: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (k, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    if g.stream().is_empty() {
                        o.push_str("{ }");
                    } else {
                        o.push('{');
                        nl(o, ind + 1);
                        go(g.stream(), o, ind + 1);
                        nl(o, ind);
                        o.push('}');
                    }
                    // keep `} else`, `} ,` and `}.f` on the line
                    match v.get(k + 1) {
                        Some(TokenTree::Ident(i)) if i == "else" => o.push(' '),
                        Some(TokenTree::Punct(_)) => {}
                        None => {}
                        _ => nl(o, ind),
                    }
                }
                Delimiter::Parenthesis => {
                    o.push('(');
                    go(g.stream(), o, ind + 1);
                    while o.ends_with(' ') {
                        o.pop();
                    }
                    o.push_str(") ");
                }
                Delimiter::Bracket => {
                    o.push('[');
                    go(g.stream(), o, ind + 1);
                    while o.ends_with(' ') {
                        o.pop();
                    }
                    o.push_str("] ");
                }
                Delimiter::None => go(g.stream(), o, ind),
            },
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                if p.as_char() == ';' {
                    nl(o, ind);
                } else if p.as_char() == ',' && p.spacing() == Spacing::Alone {
                    o.push(' ');
                } else if p.spacing() == Spacing::Alone {
                    o.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                o.push_str(&i.to_string());
                o.push(' ');
            }
            TokenTree::Literal(l) => {
                o.push_str(&l.to_string());
                o.push(' ');
            }
        }
    }
}
