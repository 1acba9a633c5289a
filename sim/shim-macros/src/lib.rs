//! `#[tokio::main]` for the simulated runtime: the same function, run by the simulator's `block_on`.
use proc_macro::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn main(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut has_pub = false;
    let last = toks.len() - 1;
    for (i, t) in toks.into_iter().enumerate() {
        match t {
            TokenTree::Ident(id) if id.to_string() == "pub" => {
                has_pub = true;
                out.push(TokenTree::Ident(id));
            }
            TokenTree::Ident(id) if id.to_string() == "async" => {
                if !has_pub {
                    out.push(TokenTree::Ident(Ident::new("pub", Span::call_site())));
                }
            }
            TokenTree::Group(g) if i == last && g.delimiter() == Delimiter::Brace => {
                // ::tokio::__sim::block_on(async move { body })
                let mut call: Vec<TokenTree> = vec![];
                for seg in ["tokio", "__sim", "block_on"] {
                    call.push(TokenTree::Punct(Punct::new(':', Spacing::Joint)));
                    call.push(TokenTree::Punct(Punct::new(':', Spacing::Alone)));
                    call.push(TokenTree::Ident(Ident::new(seg, Span::call_site())));
                }
                let mut inner: Vec<TokenTree> = vec![
                    TokenTree::Ident(Ident::new("async", Span::call_site())),
                    TokenTree::Ident(Ident::new("move", Span::call_site())),
                ];
                inner.push(TokenTree::Group(g));
                call.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, inner.into_iter().collect())));
                out.push(TokenTree::Group(Group::new(Delimiter::Brace, call.into_iter().collect())));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}
