//! Token printer. Splices loop specifications and ghost code at the marker macros.
use crate::contracts::FnContract;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn tokens(ts: TokenStream, c: &FnContract) -> String {
    let mut s = String::new();
    go(ts, c, &mut s);
    s
}

fn marker(v: &[TokenTree], name: &str) -> Option<usize> {
    // NAME ! ( k ) ;
    if v.len() >= 3 {
        if let (TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Group(g)) = (&v[0], &v[1], &v[2]) {
            if i == name && p.as_char() == '!' {
                return g.stream().to_string().split_whitespace().next().unwrap_or("").trim_end_matches("usize").parse().ok();
            }
        }
    }
    None
}

fn go(ts: TokenStream, c: &FnContract, s: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut joint = false;
    while i < v.len() {
        if let Some(k) = marker(&v[i..], "__GHOST") {
            s.push('\n');
            s.push_str(&c.ghosts[k].text);
            i += 3;
            if let Some(TokenTree::Punct(p)) = v.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
            continue;
        }
        if let Some(k) = marker(&v[i..], "__GHOSTALL") {
            s.push_str(&format!("\nlet ghost __all_{k} = __it_{k}@;\n"));
            i += 3;
            if let Some(TokenTree::Punct(p)) = v.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                let mut inner = g.stream();
                let mut is_loop = false;
                if g.delimiter() == Delimiter::Brace {
                    let iv: Vec<TokenTree> = inner.clone().into_iter().collect();
                    if let Some(k) = marker(&iv, "__ISO") {
                        // one-iteration loop: the verifier proves its body on its own
                        s.push_str(&format!("loop\ninvariant_except_break {}\ndecreases 0int\n{{\n{}", c.ghosts[k].text.trim_end(), broadcast(c)));
                        let skip = if matches!(iv.get(3), Some(TokenTree::Punct(p)) if p.as_char() == ';') { 4 } else { 3 };
                        go(iv.into_iter().skip(skip).collect(), c, s);
                        s.push_str("\nbreak;\n}\n");
                        i += 1;
                        continue;
                    }
                    if let Some(k) = marker(&iv, "__LOOP") {
                        s.push('\n');
                        is_loop = true;
                        let kind = if let TokenTree::Group(g) = &iv[2] { g.stream().to_string().split_whitespace().nth(1).unwrap_or("").to_string() } else { String::new() };
                        s.push_str(&loop_text(k, &kind, c.loops.get(&k).map(|x| x.as_str()).unwrap_or("")));
                        let mut skip = 3;
                        if let Some(TokenTree::Punct(p)) = iv.get(3) {
                            if p.as_char() == ';' {
                                skip = 4;
                            }
                        }
                        inner = iv.into_iter().skip(skip).collect();
                    }
                }
                s.push_str(a);
                if a == "{" {
                    s.push('\n');
                    if is_loop {
                        s.push_str(&broadcast(c));
                    }
                }
                go(inner, c, s);
                if a == "{" {
                    if !s.ends_with('\n') {
                        s.push('\n');
                    }
                }
                s.push_str(b);
                if b == "}" {
                    s.push('\n');
                } else if !b.is_empty() {
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                s.push(ch);
                joint = p.spacing() == Spacing::Joint;
                if ch == ';' || (ch == ',' && !joint) {
                    s.push('\n');
                } else if !joint {
                    s.push(' ');
                }
            }
            TokenTree::Ident(id) => {
                s.push_str(&id.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
        i += 1;
    }
    let _ = joint;
}

/// The lemmas in scope of a function body or a loop body.
pub fn broadcast(c: &FnContract) -> String {
    match c.group.as_deref() {
        Some("none") => String::new(),
        Some(g) => format!("broadcast use {};", g),
        None => "broadcast use crate::sh::group_sh;".into(),
    }
}

/// The loop specification: what the shape of a `for` loop gives for free, then the contract's text.
fn loop_text(k: usize, kind: &str, user: &str) -> String {
    let (inv, dec) = match kind {
        "s" => (format!("__i_{k} <= __s_{k}@.len(),"), format!("__s_{k}@.len() - __i_{k}")),
        "v" => (format!("crate::sh::it_at(__it_{k}@, __all_{k}),"), format!("__it_{k}@.len()")),
        "r" => (String::new(), format!("__e_{k} - __i_{k}")),
        _ => return user.to_string(),
    };
    let t = user.trim();
    let rest = t.strip_prefix("invariant").unwrap_or(t);
    let mut s = if rest == t && !t.is_empty() { format!("invariant {inv}\n{t}\n") } else if inv.is_empty() && rest.is_empty() { String::new() } else { format!("invariant {inv}\n{rest}\n") };
    if !user.contains("decreases") {
        let e = s.trim_end();
        if !e.is_empty() && !e.ends_with(',') {
            s = format!("{e},\n");
        }
        s.push_str(&format!("decreases {dec}\n"));
    }
    s
}
