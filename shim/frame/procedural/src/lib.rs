//! The attribute macros of FRAME that the pallets use, reimplemented for offline replay.
//! They keep the code of a pallet as it is and generate the storage prefixes, the call enum, the
//! error/event glue and the runtime enums around it.
extern crate proc_macro;
use proc_macro::TokenStream;
mod nobound;
mod pallet;
mod runtime;

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
    pallet::expand(syn::parse_macro_input!(item as syn::ItemMod)).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro]
pub fn construct_runtime(input: TokenStream) -> TokenStream {
    runtime::expand(syn::parse_macro_input!(input as runtime::Def)).into()
}

#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = syn::parse_macro_input!(item as syn::ItemFn);
    let block = &f.block;
    f.block = syn::parse_quote!({
        frame_support::storage::with_transaction_unchecked(|| {
            let r = (|| #block)();
            if r.is_ok() {
                frame_support::sp_runtime::TransactionOutcome::Commit(r)
            } else {
                frame_support::sp_runtime::TransactionOutcome::Rollback(r)
            }
        })
    });
    quote::quote!(#f).into()
}

#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = syn::parse_macro_input!(item as syn::ItemFn);
    let block = &f.block;
    f.block = syn::parse_quote!({
        if !frame_support::storage::transactional::is_transactional() {
            return Err(frame_support::sp_runtime::TransactionalError::NoLayer.into());
        }
        #block
    });
    quote::quote!(#f).into()
}

/// `type X<T> = StorageMap<Pallet<T>, ...>`: the prefix comes from the first argument.
#[proc_macro_attribute]
pub fn storage_alias(_attr: TokenStream, item: TokenStream) -> TokenStream {
    pallet::expand_alias(syn::parse_macro_input!(item as syn::ItemType)).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_no_bound(i: TokenStream) -> TokenStream {
    nobound::default(syn::parse_macro_input!(i as syn::DeriveInput)).into()
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(i: TokenStream) -> TokenStream {
    nobound::clone(syn::parse_macro_input!(i as syn::DeriveInput)).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(i: TokenStream) -> TokenStream {
    nobound::partial_eq(syn::parse_macro_input!(i as syn::DeriveInput)).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(i: TokenStream) -> TokenStream {
    nobound::eq(syn::parse_macro_input!(i as syn::DeriveInput)).into()
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(i: TokenStream) -> TokenStream {
    nobound::debug(syn::parse_macro_input!(i as syn::DeriveInput)).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_no_bound(i: TokenStream) -> TokenStream {
    nobound::debug(syn::parse_macro_input!(i as syn::DeriveInput)).into()
}
/// Benchmarks are not part of what is checked.
#[proc_macro_attribute]
pub fn benchmarks(_attr: TokenStream, _item: TokenStream) -> TokenStream {
    TokenStream::new()
}
