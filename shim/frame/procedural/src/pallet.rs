//! `#[frame_support::pallet]`
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::{parse_quote, spanned::Spanned, visit_mut::VisitMut, *};

fn helper(attrs: &mut Vec<Attribute>, name: &str) -> Option<Attribute> {
    let i = attrs.iter().position(|a| {
        let s = &a.path().segments;
        s.len() == 2 && s[0].ident == "pallet" && s[1].ident == name
    })?;
    Some(attrs.remove(i))
}

fn marked(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| {
        let s = &a.path().segments;
        s.len() == 2 && s[0].ident == "pallet" && s[1].ident == name
    })
}

fn strip_pallet(attrs: &mut Vec<Attribute>) {
    attrs.retain(|a| !(a.path().segments.len() >= 1 && a.path().segments[0].ident == "pallet" && a.path().segments.len() > 1));
}

fn has_i(g: &Generics) -> bool {
    g.type_params().any(|p| p.ident == "I")
}

/// `T: Config` becomes `T: Config<..>` with nothing else; drops defaults such as `I = ()`.
fn no_defaults(g: &Generics) -> Generics {
    let mut g = g.clone();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.default = None;
            t.eq_token = None;
        }
    }
    g
}

struct Gen {
    inst: bool,
}
impl Gen {
    /// `T: Config, I: 'static` as an impl header
    fn decl(&self) -> TokenStream {
        if self.inst {
            quote!(T: Config<I>, I: 'static)
        } else {
            quote!(T: Config)
        }
    }
    fn usage(&self) -> TokenStream {
        if self.inst {
            quote!(T, I)
        } else {
            quote!(T)
        }
    }
    fn cfg(&self) -> TokenStream {
        if self.inst {
            quote!(<T as Config<I>>)
        } else {
            quote!(<T as Config>)
        }
    }
}

fn uses(g: &Generics) -> TokenStream {
    let p: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
    if p.is_empty() {
        quote!()
    } else {
        quote!(<#(#p),*>)
    }
}

fn phantom(g: &Generics) -> TokenStream {
    let p: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
    quote!(core::marker::PhantomData<(#(#p,)*)>)
}

/// Replaces the first generic argument of the storage type; returns its identifier.
fn set_prefix(ty: &mut Type, prefix: Type) -> Result<String> {
    if let Type::Path(p) = ty {
        let seg = p.path.segments.last_mut().unwrap();
        let name = seg.ident.to_string();
        if let PathArguments::AngleBracketed(a) = &mut seg.arguments {
            if matches!(a.args.first(), Some(GenericArgument::AssocType(_))) {
                // StorageMap<Hasher = .., Key = .., Value = ..>
                let order: &[&str] = match name.as_str() {
                    "StorageValue" => &["Value", "QueryKind", "OnEmpty"],
                    "StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
                    "StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
                    _ => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
                };
                let mut got = std::collections::HashMap::new();
                for g in a.args.iter() {
                    if let GenericArgument::AssocType(b) = g {
                        got.insert(b.ident.to_string(), b.ty.clone());
                    }
                }
                a.args.clear();
                a.args.push(GenericArgument::Type(prefix));
                for k in order {
                    match got.remove(*k) {
                        Some(t) => a.args.push(GenericArgument::Type(t)),
                        None => break,
                    }
                }
                if !got.is_empty() {
                    return Err(Error::new(ty.span(), "named storage argument after a missing one"));
                }
                return Ok(name);
            }
            if let Some(f) = a.args.first_mut() {
                *f = GenericArgument::Type(prefix);
                return Ok(name);
            }
        }
    }
    Err(Error::new(ty.span(), "not a storage type"))
}

fn type_args(ty: &Type) -> Vec<Type> {
    if let Type::Path(p) = ty {
        if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
            return a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }).collect();
        }
    }
    vec![]
}

pub fn expand_alias(mut t: ItemType) -> Result<TokenStream> {
    let inner = match &*t.ty {
        Type::Path(p) => match &p.path.segments.last().unwrap().arguments {
            PathArguments::AngleBracketed(a) => a.args.first().cloned(),
            _ => None,
        },
        _ => None,
    };
    let pal = match inner {
        Some(GenericArgument::Type(p)) => p,
        _ => return Err(Error::new(t.span(), "storage_alias needs a pallet")),
    };
    let name = t.ident.to_string();
    let pre = format_ident!("__AliasPrefix{}", name);
    let vis = t.vis.clone();
    let g = no_defaults(&t.generics);
    let (ig, tg, wc) = g.split_for_impl();
    let ph = phantom(&g);
    let plain: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
    set_prefix(&mut t.ty, parse_quote!(#pre #tg))?;
    Ok(quote!(
        #[doc(hidden)] #vis struct #pre<#(#plain),*>(#ph);
        impl #ig frame_support::traits::StorageInstance for #pre #tg #wc {
            fn pallet_prefix() -> &'static str { <#pal as frame_support::traits::PalletInfoAccess>::name() }
            const STORAGE_PREFIX: &'static str = #name;
        }
        #t
    ))
}

struct Undef;
impl VisitMut for Undef {
    fn visit_field_mut(&mut self, f: &mut Field) {
        f.attrs.retain(|a| !a.path().is_ident("serde"));
    }
}

pub fn expand(mut m: ItemMod) -> Result<TokenStream> {
    let mut out: Vec<Item> = vec![];
    let items = m.content.take().ok_or_else(|| Error::new(m.span(), "inline module expected"))?.1;
    let inst = items.iter().any(|i| matches!(i, Item::Trait(t) if t.ident == "Config" && has_i(&t.generics)));
    let g = Gen { inst };
    let (decl, usage, cfgp) = (g.decl(), g.usage(), g.cfg());
    let mut extra = TokenStream::new();
    let mut calls: Vec<TokenStream> = vec![];
    let mut arms: Vec<TokenStream> = vec![];
    let mut names: Vec<String> = vec![];
    let mut name_arms: Vec<TokenStream> = vec![];
    let mut have = (false, false, false); // hooks, call, error
    let mut deposit: Option<Attribute> = None;
    let mut storage_version: Option<TokenStream> = None;

    for item in items {
        match item {
            Item::Trait(mut t) if marked(&t.attrs, "config") => {
                for i in t.items.iter_mut() {
                    match i {
                        TraitItem::Type(x) => strip_pallet(&mut x.attrs),
                        TraitItem::Fn(x) => strip_pallet(&mut x.attrs),
                        _ => {}
                    }
                }
                strip_pallet(&mut t.attrs);
                out.push(Item::Trait(t));
            }
            Item::Struct(mut s) if s.attrs.iter().any(|a| a.path().segments.len() == 2 && a.path().segments[0].ident == "pallet") => {
                if helper(&mut s.attrs, "pallet").is_some() {
                    if let Some(v) = helper(&mut s.attrs, "storage_version") {
                        storage_version = Some(v.parse_args::<Expr>()?.to_token_stream());
                    }
                    strip_pallet(&mut s.attrs);
                    let vis = &s.vis;
                    let attrs = &s.attrs;
                    let (d, ph) = if inst {
                        (quote!(<T, I: 'static = ()>), quote!(core::marker::PhantomData<(T, I)>))
                    } else {
                        (quote!(<T>), quote!(core::marker::PhantomData<(T)>))
                    };
                    extra.extend(quote!(
                        #(#attrs)*
                        #[derive(frame_support::CloneNoBound, frame_support::EqNoBound, frame_support::PartialEqNoBound, frame_support::RuntimeDebugNoBound)]
                        #vis struct Pallet #d (#ph);
                    ));
                } else if helper(&mut s.attrs, "genesis_config").is_some() {
                    Undef.visit_item_struct_mut(&mut s);
                    s.attrs.retain(|a| !a.path().is_ident("serde"));
                    out.push(Item::Struct(s));
                } else {
                    strip_pallet(&mut s.attrs);
                    out.push(Item::Struct(s));
                }
            }
            Item::Type(mut t) if marked(&t.attrs, "storage") => {
                let getter = helper(&mut t.attrs, "getter");
                strip_pallet(&mut t.attrs);
                let name = t.ident.clone();
                let sname = name.to_string();
                let pre = format_ident!("_GeneratedPrefixForStorage{}", name);
                let gi = no_defaults(&t.generics);
                let u = uses(&gi);
                let ph = phantom(&gi);
                let plain: Vec<_> = gi.type_params().map(|p| p.ident.clone()).collect();
                let kind = set_prefix(&mut t.ty, parse_quote!(#pre #u))?;
                let (ig, _, wc) = gi.split_for_impl();
                let vis = t.vis.clone();
                let ty = t.ty.clone();
                extra.extend(quote!(
                    #[doc(hidden)] #vis struct #pre<#(#plain),*>(#ph);
                    impl #ig frame_support::traits::StorageInstance for #pre #u #wc {
                        fn pallet_prefix() -> &'static str {
                            <<T as frame_system::Config>::PalletInfo as frame_support::traits::PalletInfo>::name::<Pallet<#usage>>().expect("the pallet is part of the runtime")
                        }
                        const STORAGE_PREFIX: &'static str = #sname;
                    }
                ));
                if let Some(a) = getter {
                    let fname: Ident = a.parse_args_with(|p: parse::ParseStream| {
                        p.parse::<Token![fn]>()?;
                        p.parse::<Ident>()
                    })?;
                    let args = type_args(&ty);
                    let (nk, vi) = match kind.as_str() {
                        "StorageValue" => (0, 1),
                        "StorageMap" | "CountedStorageMap" => (1, 3),
                        "StorageDoubleMap" => (2, 5),
                        k => return Err(Error::new(t.span(), format!("getter on {}", k))),
                    };
                    let val = &args[vi];
                    let is_value = matches!(args.get(vi + 1), Some(Type::Path(p)) if p.path.segments.last().unwrap().ident == "ValueQuery");
                    let q = if is_value { quote!(#val) } else { quote!(Option<#val>) };
                    let body = match nk {
                        0 => quote!(pub fn #fname() -> #q { <#name #u>::get() }),
                        1 => {
                            let k = &args[2];
                            quote!(pub fn #fname<__K>(k: __K) -> #q where __K: frame_support::codec::EncodeLike<#k> { <#name #u>::get(k) })
                        }
                        _ => {
                            let (k1, k2) = (&args[2], &args[4]);
                            quote!(pub fn #fname<__K1, __K2>(k1: __K1, k2: __K2) -> #q
                                where __K1: frame_support::codec::EncodeLike<#k1>, __K2: frame_support::codec::EncodeLike<#k2> { <#name #u>::get(k1, k2) })
                        }
                    };
                    extra.extend(quote!(impl<#decl> Pallet<#usage> { #body }));
                }
                // bounds on type aliases are not enforced; keep them for readability only
                t.attrs.push(parse_quote!(#[allow(type_alias_bounds)]));
                out.push(Item::Type(t));
            }
            Item::Fn(f) if marked(&f.attrs, "type_value") => {
                let name = f.sig.ident.clone();
                let vis = &f.vis;
                let gi = no_defaults(&f.sig.generics);
                let u = uses(&gi);
                let ph = phantom(&gi);
                let plain: Vec<_> = gi.type_params().map(|p| p.ident.clone()).collect();
                let (ig, _, wc) = gi.split_for_impl();
                let ret = match &f.sig.output {
                    ReturnType::Type(_, t) => t.clone(),
                    _ => return Err(Error::new(f.span(), "type_value returns a value")),
                };
                let block = &f.block;
                let (s, gp) = if plain.is_empty() { (quote!(;), quote!()) } else { (quote!((#ph);), quote!(<#(#plain),*>)) };
                extra.extend(quote!(
                    #vis struct #name #gp #s
                    impl #ig frame_support::traits::Get<#ret> for #name #u #wc { fn get() -> #ret { #block } }
                ));
            }
            Item::Enum(mut e) if marked(&e.attrs, "event") => {
                deposit = helper(&mut e.attrs, "generate_deposit");
                strip_pallet(&mut e.attrs);
                let gi = no_defaults(&e.generics);
                if !gi.params.is_empty() {
                    let ph = phantom(&gi);
                    e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(#ph, frame_support::Never)));
                }
                e.attrs.push(parse_quote!(#[derive(frame_support::CloneNoBound, frame_support::EqNoBound, frame_support::PartialEqNoBound, frame_support::RuntimeDebugNoBound, frame_support::codec::Encode, frame_support::codec::Decode)]));
                e.attrs.push(parse_quote!(#[codec(crate = frame_support::codec)]));
                let u = uses(&gi);
                let (ig, _, wc) = gi.split_for_impl();
                if gi.params.is_empty() {
                    extra.extend(quote!(impl From<Event> for () { fn from(_: Event) {} }));
                } else {
                    extra.extend(quote!(impl #ig From<Event #u> for () #wc { fn from(_: Event #u) {} }));
                }
                if let Some(a) = &deposit {
                    let (fvis, fname): (Visibility, Ident) = a.parse_args_with(|p: parse::ParseStream| {
                        let v = p.parse::<Visibility>()?;
                        p.parse::<Token![fn]>()?;
                        Ok((v, p.parse::<Ident>()?))
                    })?;
                    extra.extend(quote!(impl<#decl> Pallet<#usage> {
                        #fvis fn #fname(event: Event #u) {
                            let event = <#cfgp::RuntimeEvent as From<Event #u>>::from(event);
                            let event = <#cfgp::RuntimeEvent as Into<<T as frame_system::Config>::RuntimeEvent>>::into(event);
                            <frame_system::Pallet<T>>::deposit_event(event)
                        }
                    }));
                }
                out.push(Item::Enum(e));
            }
            Item::Enum(mut e) if marked(&e.attrs, "error") => {
                have.2 = true;
                strip_pallet(&mut e.attrs);
                let gi = no_defaults(&e.generics);
                let u = uses(&gi);
                let ph = phantom(&gi);
                let mut strs = vec![];
                let mut dbg = vec![];
                for (i, v) in e.variants.iter().enumerate() {
                    if !v.fields.is_empty() {
                        return Err(Error::new(v.span(), "errors with fields are not supported"));
                    }
                    let id = &v.ident;
                    let s = id.to_string();
                    let i = i as u8;
                    strs.push(quote!(Error::#id => #s,));
                    dbg.push(quote!(Error::#id => #i,));
                }
                let gp: Vec<_> = gi.type_params().map(|p| p.ident.clone()).collect();
                let bounds: Vec<_> = gi.params.iter().cloned().collect();
                let ib = if bounds.is_empty() { quote!() } else { quote!(<#(#bounds),*>) };
                e.variants.insert(0, parse_quote!(#[doc(hidden)] __Ignore(#ph, frame_support::Never)));
                let _ = gp;
                let cfgd = if gi.params.is_empty() { quote!() } else { quote!(<#decl>) };
                extra.extend(quote!(
                    impl #ib core::fmt::Debug for Error #u {
                        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.as_str()) }
                    }
                    impl #ib Error #u {
                        #[doc(hidden)] pub fn as_str(&self) -> &'static str { match self { Error::__Ignore(..) => unreachable!(), #(#strs)* } }
                        #[doc(hidden)] fn as_index(&self) -> u8 { match self { Error::__Ignore(..) => unreachable!(), #(#dbg)* } }
                    }
                    impl #ib From<Error #u> for &'static str { fn from(e: Error #u) -> &'static str { e.as_str() } }
                    impl #cfgd From<Error #u> for frame_support::sp_runtime::DispatchError {
                        fn from(e: Error #u) -> Self {
                            let index = <<T as frame_system::Config>::PalletInfo as frame_support::traits::PalletInfo>::index::<Pallet<#usage>>().expect("the pallet is part of the runtime") as u8;
                            frame_support::sp_runtime::DispatchError::Module(frame_support::sp_runtime::ModuleError {
                                index, error: [e.as_index(), 0, 0, 0], message: Some(e.as_str()),
                            })
                        }
                    }
                ));
                out.push(Item::Enum(e));
            }
            Item::Impl(mut im) if marked(&im.attrs, "call") => {
                have.1 = true;
                strip_pallet(&mut im.attrs);
                for (pos, it) in im.items.iter_mut().enumerate() {
                    if let ImplItem::Fn(f) = it {
                        let idx = helper(&mut f.attrs, "call_index").map(|a| a.parse_args::<LitInt>().unwrap().base10_parse::<u8>().unwrap()).unwrap_or(pos as u8);
                        strip_pallet(&mut f.attrs);
                        let name = f.sig.ident.clone();
                        let sname = name.to_string();
                        let mut fields = vec![];
                        let mut args = vec![];
                        for a in f.sig.inputs.iter_mut().skip(1) {
                            if let FnArg::Typed(p) = a {
                                strip_pallet(&mut p.attrs);
                                let id = match &*p.pat {
                                    Pat::Ident(i) => i.ident.clone(),
                                    o => return Err(Error::new(o.span(), "argument pattern")),
                                };
                                let ty = &p.ty;
                                fields.push(quote!(#id: #ty));
                                args.push(id);
                            }
                        }
                        calls.push(quote!(#[codec(index = #idx)] #name { #(#fields),* },));
                        arms.push(quote!(Self::#name { #(#args),* } => <Pallet<#usage>>::#name(origin, #(#args),*).map(Into::into).map_err(Into::into),));
                        name_arms.push(quote!(Self::#name { .. } => #sname,));
                        names.push(sname);
                        // as FRAME does: every dispatchable runs in a storage layer of its own
                        let block = &f.block;
                        f.block = parse_quote!({ frame_support::storage::in_storage_layer(|| #block) });
                    }
                }
                out.push(Item::Impl(im));
            }
            Item::Impl(mut im) if marked(&im.attrs, "hooks") => {
                have.0 = true;
                strip_pallet(&mut im.attrs);
                out.push(Item::Impl(im));
            }
            Item::Impl(mut im) if marked(&im.attrs, "genesis_build") => {
                let gi = im.generics.clone();
                let (ig, _, wc) = gi.split_for_impl();
                let ty = im.self_ty.clone();
                extra.extend(quote!(
                    impl #ig frame_support::sp_runtime::BuildStorage for #ty #wc {
                        fn assimilate_storage(&self, storage: &mut frame_support::sp_runtime::Storage) -> core::result::Result<(), String> {
                            frame_support::BasicExternalities::execute_with_storage(storage, || {
                                frame_support::traits::BuildGenesisConfig::build(self);
                                Ok(())
                            })
                        }
                    }
                ));
                strip_pallet(&mut im.attrs);
                out.push(Item::Impl(im));
            }
            Item::Impl(mut im) => {
                strip_pallet(&mut im.attrs);
                out.push(Item::Impl(im));
            }
            Item::Enum(mut e) => {
                strip_pallet(&mut e.attrs);
                out.push(Item::Enum(e));
            }
            o => out.push(o),
        }
    }

    if !have.0 {
        extra.extend(quote!(impl<#decl> frame_support::traits::Hooks<frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#usage> {}));
    }
    let bn = quote!(frame_system::pallet_prelude::BlockNumberFor<T>);
    let version = storage_version.unwrap_or(quote!(frame_support::traits::StorageVersion::new(0)));
    let modname = m.ident.to_string();
    extra.extend(quote!(
        impl<#decl> frame_support::traits::OnInitialize<#bn> for Pallet<#usage> {
            fn on_initialize(n: #bn) -> frame_support::weights::Weight { <Self as frame_support::traits::Hooks<#bn>>::on_initialize(n) }
        }
        impl<#decl> frame_support::traits::OnFinalize<#bn> for Pallet<#usage> {
            fn on_finalize(n: #bn) { <Self as frame_support::traits::Hooks<#bn>>::on_finalize(n) }
        }
        impl<#decl> frame_support::traits::OnIdle<#bn> for Pallet<#usage> {
            fn on_idle(n: #bn, w: frame_support::weights::Weight) -> frame_support::weights::Weight { <Self as frame_support::traits::Hooks<#bn>>::on_idle(n, w) }
        }
        impl<#decl> frame_support::traits::OnRuntimeUpgrade for Pallet<#usage> {
            fn on_runtime_upgrade() -> frame_support::weights::Weight { <Self as frame_support::traits::Hooks<#bn>>::on_runtime_upgrade() }
        }
        impl<#decl> frame_support::traits::OffchainWorker<#bn> for Pallet<#usage> {
            fn offchain_worker(n: #bn) { <Self as frame_support::traits::Hooks<#bn>>::offchain_worker(n) }
        }
        impl<#decl> frame_support::traits::IntegrityTest for Pallet<#usage> {
            fn integrity_test() { <Self as frame_support::traits::Hooks<#bn>>::integrity_test() }
        }
        impl<#decl> frame_support::traits::PalletInfoAccess for Pallet<#usage> {
            fn index() -> usize { <<T as frame_system::Config>::PalletInfo as frame_support::traits::PalletInfo>::index::<Self>().expect("the pallet is part of the runtime") }
            fn name() -> &'static str { <<T as frame_system::Config>::PalletInfo as frame_support::traits::PalletInfo>::name::<Self>().expect("the pallet is part of the runtime") }
            fn module_name() -> &'static str { #modname }
        }
        impl<#decl> frame_support::traits::GetStorageVersion for Pallet<#usage> {
            fn current_storage_version() -> frame_support::traits::StorageVersion { #version }
            fn on_chain_storage_version() -> frame_support::traits::StorageVersion { frame_support::traits::StorageVersion::get::<Self>() }
        }
    ));
    let ph = if inst { quote!(core::marker::PhantomData<(T, I)>) } else { quote!(core::marker::PhantomData<(T,)>) };
    let cdecl = if inst { quote!(<T: Config<I>, I: 'static = ()>) } else { quote!(<T: Config>) };
    extra.extend(quote!(
        #[derive(frame_support::CloneNoBound, frame_support::EqNoBound, frame_support::PartialEqNoBound, frame_support::RuntimeDebugNoBound, frame_support::codec::Encode, frame_support::codec::Decode)]
        #[codec(crate = frame_support::codec)]
        #[codec(encode_bound())]
        #[codec(decode_bound())]
        #[allow(non_camel_case_types)]
        pub enum Call #cdecl {
            #[doc(hidden)] #[codec(skip)] __Ignore(#ph, frame_support::Never),
            #(#calls)*
        }
        impl<#decl> frame_support::traits::UnfilteredDispatchable for Call<#usage> {
            type RuntimeOrigin = frame_system::pallet_prelude::OriginFor<T>;
            #[allow(unused_variables)]
            fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
                match self { Self::__Ignore(..) => unreachable!(), #(#arms)* }
            }
        }
        impl<#decl> frame_support::traits::GetCallName for Call<#usage> {
            fn get_call_names() -> &'static [&'static str] { &[#(#names),*] }
            fn get_call_name(&self) -> &'static str { match self { Self::__Ignore(..) => unreachable!(), #(#name_arms)* } }
        }
        impl<#decl> frame_support::dispatch::GetDispatchInfo for Call<#usage> {
            fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo { Default::default() }
        }
        impl<#decl> frame_support::dispatch::Callable<T> for Pallet<#usage> { type RuntimeCall = Call<#usage>; }
    ));
    if inst {
        extra.extend(quote!(#[allow(unused_imports)] pub use frame_support::instances::*;));
    }
    if !have.1 {
        // a pallet without calls still has a (void) call enum
    }
    if !have.2 {
        // nothing to do
    }
    let (attrs, vis, ident) = (&m.attrs, &m.vis, Ident::new(&m.ident.to_string(), Span::call_site()));
    Ok(quote!(#(#attrs)* #vis mod #ident { #(#out)* #extra }))
}
