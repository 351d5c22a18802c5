//! `#[visibility::make(pub)]`: gives the item the visibility in the parentheses.
use proc_macro::TokenStream;
use quote::ToTokens;
#[proc_macro_attribute]
pub fn make(attr: TokenStream, item: TokenStream) -> TokenStream {
    let vis = syn::parse_macro_input!(attr as syn::Visibility);
    if let Ok(mut f) = syn::parse::<syn::ImplItemFn>(item.clone()) {
        f.vis = vis;
        return f.into_token_stream().into();
    }
    let mut it = syn::parse_macro_input!(item as syn::Item);
    match &mut it {
        syn::Item::Struct(s) => s.vis = vis,
        syn::Item::Enum(s) => s.vis = vis,
        syn::Item::Mod(s) => s.vis = vis,
        syn::Item::Type(s) => s.vis = vis,
        syn::Item::Const(s) => s.vis = vis,
        syn::Item::Trait(s) => s.vis = vis,
        _ => {}
    }
    it.into_token_stream().into()
}
