//! Attributes that leave a trace of where they were put.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

/// #[mark(a)] on a method `foo` adds a function `__mark_a_foo`, on an `impl X` a function `__mark_a_impl`.
#[proc_macro_attribute]
pub fn mark(tag: TokenStream, item: TokenStream) -> TokenStream {
    let tag = tag.to_string();
    let toks: Vec<TokenTree> = item.clone().into_iter().collect();
    let ident = |t: &TokenTree| if let TokenTree::Ident(i) = t { i.to_string() } else { String::new() };
    let after = |w: &str| {
        let mut seen = false;
        for t in &toks {
            if seen {
                if let TokenTree::Ident(i) = t {
                    return Some(i.to_string());
                }
            }
            if ident(t) == w {
                seen = true;
            }
            if let TokenTree::Group(g) = t {
                if g.delimiter() == Delimiter::Brace {
                    break;
                }
            }
        }
        None
    };
    let mut out = item;
    let extra = if let Some(name) = after("fn") {
        format!("#[allow(non_snake_case, dead_code)] pub fn __mark_{}_{}() {{}}", tag, name.trim_start_matches("r#"))
    } else if let Some(ty) = after("impl") {
        format!("impl {} {{ #[allow(dead_code)] pub fn __mark_{}_impl() {{}} }}", ty, tag)
    } else {
        panic!("mark on something else")
    };
    out.extend(extra.parse::<TokenStream>().unwrap());
    out
}

/// Records the attributes `tag` of the struct and `note_a`, `note_b`, `note_c` of its fields as a constant.
#[proc_macro_derive(Notes, attributes(tag, note_a, note_b, note_c))]
pub fn notes(item: TokenStream) -> TokenStream {
    let known = ["tag", "note_a", "note_b", "note_c"];
    fn attrs(toks: &[TokenTree], known: &[&str], out: &mut Vec<String>) {
        // # [ name .. ]
        for w in toks.windows(2) {
            if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&w[0], &w[1]) {
                if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let Some(TokenTree::Ident(i)) = inner.first() {
                        if known.contains(&i.to_string().as_str()) {
                            out.push(g.stream().to_string().replace(' ', ""));
                        }
                    }
                }
            }
        }
    }
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let mut head = vec![];
    let mut name = String::new();
    let mut fields = vec![];
    for (i, t) in toks.iter().enumerate() {
        if let TokenTree::Ident(id) = t {
            if id.to_string() == "struct" {
                attrs(&toks[..i], &known, &mut head);
                name = toks[i + 1].to_string();
            }
        }
        if let TokenTree::Group(g) = t {
            if g.delimiter() == Delimiter::Brace {
                // split at the commas outside of <..>
                let (mut depth, mut cur, mut last) = (0i32, vec![], ' ');
                let mut all = vec![];
                for t in g.stream() {
                    let mut now = ' ';
                    if let TokenTree::Punct(p) = &t {
                        now = p.as_char();
                        if now == '<' { depth += 1; }
                        if now == '>' && last != '-' { depth -= 1; }
                        if now == ',' && depth == 0 {
                            all.push(std::mem::take(&mut cur));
                            last = ' ';
                            continue;
                        }
                    }
                    last = now;
                    cur.push(t);
                }
                if !cur.is_empty() { all.push(cur); }
                for f in all {
                    let colon = f.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':')).unwrap();
                    let mut a = vec![];
                    attrs(&f[..colon], &known, &mut a);
                    fields.push(format!("{}:{}", f[colon - 1].to_string(), a.join("+")));
                }
            }
        }
    }
    format!("impl {} {{ #[allow(dead_code)] pub const NOTES: &'static str = {:?}; }}", name, format!("{}|{}", head.join("+"), fields.join(",")))
        .parse()
        .unwrap()
}
