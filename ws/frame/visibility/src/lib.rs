//! #[visibility::make(pub)]: replaces the visibility of an item.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn make(v: TokenStream, i: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = i.into_iter().peekable();
    // attributes first
    while let Some(TokenTree::Punct(p)) = it.peek() {
        if p.as_char() != '#' {
            break;
        }
        out.push(it.next().unwrap());
        out.push(it.next().unwrap());
    }
    if let Some(TokenTree::Ident(x)) = it.peek() {
        if x.to_string() == "pub" {
            it.next();
            if let Some(TokenTree::Group(g)) = it.peek() {
                if g.delimiter() == proc_macro::Delimiter::Parenthesis {
                    it.next();
                }
            }
        }
    }
    out.extend(v);
    out.extend(it);
    out.into_iter().collect()
}
