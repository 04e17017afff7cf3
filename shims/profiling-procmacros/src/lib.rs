use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

/// Inserts a scheduling point at the start of the function body (the last
/// brace group of the item).
#[proc_macro_attribute]
pub fn function(_a: TokenStream, item: TokenStream) -> TokenStream {
  let mut v: Vec<TokenTree> = item.into_iter().collect();
  if let Some(TokenTree::Group(g)) = v.last() {
    if g.delimiter() == Delimiter::Brace {
      let mut body: TokenStream = "::profiling::point();".parse().unwrap();
      body.extend(g.stream());
      let mut ng = Group::new(Delimiter::Brace, body);
      ng.set_span(g.span());
      let n = v.len();
      v[n - 1] = TokenTree::Group(ng);
    }
  }
  v.into_iter().collect()
}
#[proc_macro_attribute]
pub fn all_functions(_a: TokenStream, item: TokenStream) -> TokenStream {
  item
}
#[proc_macro_attribute]
pub fn skip(_a: TokenStream, item: TokenStream) -> TokenStream {
  item
}
