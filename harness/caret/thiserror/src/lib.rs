use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Error, attributes(error, from))]
pub fn error(input: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = input.into_iter().collect();
    let at = t.iter().position(|x| x.to_string() == "enum").expect("an enum");
    let name = t[at + 1].to_string();
    format!(
        "impl std::fmt::Display for {name} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ write!(f, \"{{:?}}\", self) }} }}
         impl std::error::Error for {name} {{}}
         impl From<serde_json::Error> for {name} {{ fn from(e: serde_json::Error) -> Self {{ {name}::JsonInputTree(e) }} }}"
    ).parse().unwrap()
}
