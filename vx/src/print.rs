use proc_macro2::*;
use quote::ToTokens;
pub fn tokens(t: TokenStream) -> String { let mut s = String::new(); go(t, &mut s, 0); s.trim().to_string() }
pub fn block(b: &syn::Block) -> String { tokens(b.to_token_stream()) }
fn nl(s: &mut String, d: usize) { while s.ends_with(' ') { s.pop(); } s.push('\n'); for _ in 0..d { s.push(' '); } }
fn go(t: TokenStream, s: &mut String, d: usize) {
  for x in t {
    match x {
      TokenTree::Group(g) => {
        let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
        s.push_str(o);
        if o == "{" { nl(s, d + 1); go(g.stream(), s, d + 1); nl(s, d); s.push_str(c); nl(s, d); }
        else { go(g.stream(), s, d); while s.ends_with(' ') { s.pop(); } s.push_str(c); s.push(' '); }
      }
      TokenTree::Punct(p) => {
        let ch = p.as_char();
        if (ch == ',' || ch == ';' || ch == '.' || ch == '?') && s.ends_with(' ') { s.pop(); }
        s.push(ch);
        if ch == ';' { nl(s, d) }
        else if p.spacing() == Spacing::Alone && ch != '&' && ch != '.' { s.push(' ') }
      }
      TokenTree::Ident(i) => { s.push_str(&i.to_string()); s.push(' ') }
      TokenTree::Literal(l) => { s.push_str(&l.to_string()); s.push(' ') }
    }
  }
}
