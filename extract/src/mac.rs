//! macro_rules expansion for macros whose parameters are `$x:ident` / `$x:expr`, comma and `=>` separated.
use proc_macro2::*;

pub fn expand(im: &syn::ItemMacro, input: &TokenStream) -> Result<TokenStream, String> {
    let mut it = im.mac.tokens.clone().into_iter();
    let inp: Vec<TokenTree> = input.clone().into_iter().collect();
    loop {
        let pat = match it.next() {
            Some(TokenTree::Group(g)) => g.stream(),
            Some(_) => continue,
            None => return Err("no macro arm matches".into()),
        };
        let body = loop {
            match it.next() {
                Some(TokenTree::Group(g)) => break g.stream(),
                Some(_) => continue,
                None => return Err("macro arm".into()),
            }
        };
        if let Some(b) = matches(&pat.into_iter().collect::<Vec<_>>(), &inp) {
            return Ok(subst(body, &b));
        }
    }
}
type B = Vec<(String, TokenStream)>;
fn matches(p: &[TokenTree], inp: &[TokenTree]) -> Option<B> {
    let mut b = vec![];
    let (mut i, mut j) = (0, 0);
    while i < p.len() {
        match &p[i] {
            TokenTree::Punct(q) if q.as_char() == '$' => {
                let name = p.get(i + 1)?.to_string();
                let kind = p.get(i + 3)?.to_string();
                i += 4;
                if kind == "ident" {
                    match inp.get(j)? {
                        TokenTree::Ident(x) => b.push((name, TokenTree::Ident(x.clone()).into())),
                        _ => return None,
                    }
                    j += 1;
                } else {
                    // up to the next separator of the pattern
                    let stop = p.get(i).map(|t| t.to_string());
                    let mut ts = TokenStream::new();
                    while j < inp.len() && Some(inp[j].to_string()) != stop {
                        ts.extend([inp[j].clone()]);
                        j += 1;
                    }
                    if ts.is_empty() {
                        return None;
                    }
                    b.push((name, ts));
                }
            }
            t => {
                if inp.get(j)?.to_string() != t.to_string() {
                    return None;
                }
                i += 1;
                j += 1;
            }
        }
    }
    if j == inp.len() { Some(b) } else { None }
}
fn subst(s: TokenStream, b: &B) -> TokenStream {
    let v: Vec<TokenTree> = s.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '$' {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    if let Some((_, t)) = b.iter().find(|(n, _)| id == n) {
                        out.extend(t.clone());
                        i += 2;
                        continue;
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), b)))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
