//! Stand-in for `paste`: concatenates `[< a b >]` groups of identifiers.
extern crate proc_macro;
use proc_macro::*;
#[proc_macro]
pub fn paste(i: TokenStream) -> TokenStream { go(i) }
fn go(i: TokenStream) -> TokenStream {
    i.into_iter().map(|t| match t {
        TokenTree::Group(g) => {
            let v: Vec<TokenTree> = g.stream().into_iter().collect();
            if g.delimiter() == Delimiter::Bracket && v.len() > 2 && v[0].to_string() == "<" && v[v.len() - 1].to_string() == ">" {
                let mut s = String::new(); let mut sp = None;
                for x in &v[1..v.len() - 1] { cat(x, &mut s, &mut sp); }
                return TokenTree::Ident(Ident::new(&s, sp.unwrap_or_else(Span::call_site)));
            }
            let mut n = Group::new(g.delimiter(), go(g.stream())); n.set_span(g.span()); TokenTree::Group(n)
        }
        t => t,
    }).collect()
}
fn cat(t: &TokenTree, s: &mut String, sp: &mut Option<Span>) {
    match t {
        TokenTree::Group(g) => g.stream().into_iter().for_each(|x| cat(&x, s, sp)),
        t => { sp.get_or_insert(t.span()); s.push_str(t.to_string().trim_matches('"')) }
    }
}
