//! Derives without bounds on the type parameters.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields};

fn wrap(i: &DeriveInput, tr: TokenStream, body: TokenStream) -> TokenStream {
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    quote!(#[automatically_derived] const _: () = { impl #ig #tr for #name #tg #wc { #body } };)
}

/// (pattern for a, pattern for b, names of a, names of b)
fn pats(f: &Fields) -> (TokenStream, TokenStream, Vec<syn::Ident>, Vec<syn::Ident>) {
    let n = f.len();
    let a: Vec<_> = (0..n).map(|i| format_ident!("__a{}", i)).collect();
    let b: Vec<_> = (0..n).map(|i| format_ident!("__b{}", i)).collect();
    match f {
        Fields::Named(x) => {
            let k: Vec<_> = x.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            (quote!({#(#k: #a),*}), quote!({#(#k: #b),*}), a, b)
        }
        Fields::Unnamed(_) => (quote!((#(#a),*)), quote!((#(#b),*)), a, b),
        Fields::Unit => (quote!(), quote!(), a, b),
    }
}

fn variants(i: &DeriveInput) -> Vec<(TokenStream, String, Fields)> {
    match &i.data {
        Data::Struct(s) => vec![(quote!(Self), i.ident.to_string(), s.fields.clone())],
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let id = &v.ident;
                (quote!(Self::#id), id.to_string(), v.fields.clone())
            })
            .collect(),
        _ => vec![],
    }
}

fn build(path: &TokenStream, f: &Fields, vals: Vec<TokenStream>) -> TokenStream {
    match f {
        Fields::Named(x) => {
            let k: Vec<_> = x.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            quote!(#path {#(#k: #vals),*})
        }
        Fields::Unnamed(_) => quote!(#path (#(#vals),*)),
        Fields::Unit => quote!(#path),
    }
}

pub fn default(i: DeriveInput) -> TokenStream {
    let e = match &i.data {
        Data::Struct(s) => build(&quote!(Self), &s.fields, s.fields.iter().map(|_| quote!(core::default::Default::default())).collect()),
        Data::Enum(e) => {
            let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).expect("no #[default]");
            let id = &v.ident;
            build(&quote!(Self::#id), &v.fields, v.fields.iter().map(|_| quote!(core::default::Default::default())).collect())
        }
        _ => panic!("unions"),
    };
    wrap(&i, quote!(core::default::Default), quote!(fn default() -> Self { #e }))
}

pub fn clone(i: DeriveInput) -> TokenStream {
    let arms = variants(&i).into_iter().map(|(p, _, f)| {
        let (pa, _, a, _) = pats(&f);
        let e = build(&p, &f, a.iter().map(|x| quote!(core::clone::Clone::clone(#x))).collect());
        quote!(#p #pa => #e,)
    });
    wrap(&i, quote!(core::clone::Clone), quote!(fn clone(&self) -> Self { match self { #(#arms)* } }))
}

pub fn partial_eq(i: DeriveInput) -> TokenStream {
    let arms = variants(&i).into_iter().map(|(p, _, f)| {
        let (pa, pb, a, b) = pats(&f);
        quote!((#p #pa, #p #pb) => true #(&& #a == #b)*,)
    });
    let wild = if variants(&i).len() > 1 { quote!(_ => false,) } else { quote!() };
    wrap(&i, quote!(core::cmp::PartialEq), quote!(fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms)* #wild } }))
}

pub fn eq(i: DeriveInput) -> TokenStream {
    wrap(&i, quote!(core::cmp::Eq), quote!())
}

pub fn debug(i: DeriveInput) -> TokenStream {
    let arms = variants(&i).into_iter().map(|(p, n, f)| {
        let (pa, _, a, _) = pats(&f);
        let b = match &f {
            Fields::Named(x) => {
                let k: Vec<_> = x.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                quote!(fmt.debug_struct(#n) #(.field(#k, &#a))* .finish())
            }
            _ => quote!(fmt.debug_tuple(#n) #(.field(&#a))* .finish()),
        };
        quote!(#p #pa => #b,)
    });
    wrap(&i, quote!(core::fmt::Debug), quote!(fn fmt(&self, fmt: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { match self { #(#arms)* } }))
}
