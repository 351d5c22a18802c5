//! `construct_runtime!`
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{parse::*, punctuated::Punctuated, *};

struct P {
    name: Ident,
    path: Path,
    inst: Option<Path>,
    parts: Option<Vec<String>>,
    index: usize,
}
pub struct Def {
    name: Ident,
    pallets: Vec<P>,
}

impl Parse for Def {
    fn parse(input: ParseStream) -> Result<Self> {
        let _ = input.call(Attribute::parse_outer)?;
        let _: Visibility = input.parse()?;
        if input.peek(Token![enum]) {
            input.parse::<Token![enum]>()?;
        } else {
            input.parse::<Token![struct]>()?;
        }
        let name: Ident = input.parse()?;
        if input.peek(Token![where]) {
            while !input.peek(token::Brace) {
                let _: proc_macro2::TokenTree = input.parse()?;
            }
        }
        let c;
        braced!(c in input);
        let mut pallets: Vec<P> = vec![];
        while !c.is_empty() {
            let _ = c.call(Attribute::parse_outer)?;
            let name: Ident = c.parse()?;
            c.parse::<Token![:]>()?;
            // path segments, then optionally ::<Instance>, then optionally ::{parts}
            let mut segs: Punctuated<PathSegment, Token![::]> = Punctuated::new();
            let mut inst = None;
            let mut parts = None;
            loop {
                if c.peek(Token![<]) {
                    c.parse::<Token![<]>()?;
                    inst = Some(c.parse::<Path>()?);
                    c.parse::<Token![>]>()?;
                } else if c.peek(token::Brace) {
                    let b;
                    braced!(b in c);
                    let mut v = vec![];
                    while !b.is_empty() {
                        v.push(b.parse::<Ident>()?.to_string());
                        while !b.is_empty() && !b.peek(Token![,]) {
                            let _: proc_macro2::TokenTree = b.parse()?;
                        }
                        if !b.is_empty() {
                            b.parse::<Token![,]>()?;
                        }
                    }
                    parts = Some(v);
                } else {
                    let id = if c.peek(Token![crate]) {
                        c.parse::<Token![crate]>()?;
                        Ident::new("crate", proc_macro2::Span::call_site())
                    } else {
                        c.parse::<Ident>()?
                    };
                    segs.push(PathSegment::from(id));
                }
                if c.peek(Token![::]) {
                    c.parse::<Token![::]>()?;
                } else {
                    break;
                }
            }
            let mut index = pallets.last().map(|p| p.index + 1).unwrap_or(0);
            if c.peek(Token![=]) {
                c.parse::<Token![=]>()?;
                index = c.parse::<LitInt>()?.base10_parse()?;
            }
            if !c.is_empty() {
                c.parse::<Token![,]>()?;
            }
            pallets.push(P { name, path: Path { leading_colon: None, segments: segs }, inst, parts, index });
        }
        Ok(Def { name, pallets })
    }
}

impl P {
    fn has(&self, part: &str) -> bool {
        match &self.parts {
            None => true,
            Some(v) => v.iter().any(|x| x == part),
        }
    }
    fn args(&self, rt: &Ident) -> TokenStream {
        let path = &self.path;
        match &self.inst {
            Some(i) => quote!(<#rt, #path::#i>),
            None => quote!(<#rt>),
        }
    }
}

pub fn expand(d: Def) -> TokenStream {
    let rt = &d.name;
    let mut aliases = vec![];
    let mut tuple = vec![];
    let mut infos = vec![];
    for p in &d.pallets {
        let (n, path, a, i) = (&p.name, &p.path, p.args(rt), p.index);
        let s = n.to_string();
        aliases.push(quote!(pub type #n = #path::Pallet #a;));
        tuple.push(n.clone());
        infos.push(quote!(if type_id == core::any::TypeId::of::<#n>() { return Some((#i, #s)); }));
    }
    let sys = d.pallets.iter().find(|p| p.name == "System").expect("System").path.clone();
    // events
    // FRAME asks each pallet for its parts; here, a pallet listed without parts has no events unless it is named below
    let named = |p: &P, n: &[&str]| p.path.segments.len() == 1 && n.iter().any(|x| p.path.segments[0].ident == x);
    let ev: Vec<_> = d.pallets.iter().filter(|p| p.parts.is_some() && p.has("Event") || p.name == "System" || named(p, &["pallet_utility", "pallet_tx_pause", "pallet_balances", "pallet_scheduler"])).collect();
    let ev_var: Vec<_> = ev.iter().map(|p| p.name.clone()).collect();
    let ev_ty: Vec<_> = ev
        .iter()
        .map(|p| {
            let (path, a) = (&p.path, p.args(rt));
            if named(p, &["pallet_utility"]) { quote!(#path::Event) } else { quote!(#path::Event #a) }
        })
        .collect();
    let ev_idx: Vec<_> = ev.iter().map(|p| p.index as u8).collect();
    let ev_into: Vec<_> = ev_ty.iter().zip(&ev_var).map(|(t, v)| quote!(
        impl From<#t> for RuntimeEvent { fn from(x: #t) -> Self { RuntimeEvent::#v(x) } }
        impl TryInto<#t> for RuntimeEvent { type Error = (); fn try_into(self) -> core::result::Result<#t, ()> { match self { Self::#v(x) => Ok(x), _ => Err(()) } } }
    )).collect();
    // calls
    let ca: Vec<_> = d.pallets.iter().filter(|p| p.has("Call")).collect();
    let ca_var: Vec<_> = ca.iter().map(|p| p.name.clone()).collect();
    let ca_names: Vec<_> = ca.iter().map(|p| p.name.to_string()).collect();
    let ca_ty: Vec<_> = ca
        .iter()
        .map(|p| {
            let n = &p.name;
            quote!(frame_support::dispatch::CallableCallFor<#n, #rt>)
        })
        .collect();
    let ca_idx: Vec<_> = ca.iter().map(|p| p.index as u8).collect();
    let ca_real: Vec<_> = ca.iter().map(|p| { let (path, a) = (&p.path, p.args(rt)); quote!(#path::Call #a) }).collect();
    let _ = format_ident!("x");
    quote!(
        #[derive(Clone, Copy, PartialEq, Eq, frame_support::sp_runtime::RuntimeDebug, frame_support::scale_info::TypeInfo)]
        #[scale_info(crate = frame_support::scale_info)]
        pub struct #rt;
        #(#aliases)*
        pub type AllPalletsWithSystem = (#(#tuple,)*);

        pub struct PalletInfo;
        impl PalletInfo {
            fn find(type_id: core::any::TypeId) -> Option<(usize, &'static str)> { #(#infos)* None }
        }
        impl frame_support::traits::PalletInfo for PalletInfo {
            fn index<P: 'static>() -> Option<usize> { Self::find(core::any::TypeId::of::<P>()).map(|x| x.0) }
            fn name<P: 'static>() -> Option<&'static str> { Self::find(core::any::TypeId::of::<P>()).map(|x| x.1) }
        }

        #[derive(Clone, PartialEq, Eq, Debug, frame_support::codec::Encode, frame_support::codec::Decode)]
        #[codec(crate = frame_support::codec)]
        #[allow(non_camel_case_types)]
        pub enum RuntimeEvent { #(#[codec(index = #ev_idx)] #ev_var(#ev_ty),)* }
        #(#ev_into)*

        #[derive(Clone, PartialEq, Eq, Debug, frame_support::codec::Encode, frame_support::codec::Decode)]
        #[codec(crate = frame_support::codec)]
        #[allow(non_camel_case_types)]
        pub enum RuntimeCall { #(#[codec(index = #ca_idx)] #ca_var(#ca_ty),)* }
        impl frame_support::scale_info::TypeInfo for RuntimeCall {
            type Identity = Self;
            fn type_info() -> frame_support::scale_info::Type { frame_support::scale_info::Type::builder().path(frame_support::scale_info::Path::new("RuntimeCall", "runtime")).composite(frame_support::scale_info::build::Fields::unit()) }
        }
        impl frame_support::scale_info::TypeInfo for RuntimeEvent {
            type Identity = Self;
            fn type_info() -> frame_support::scale_info::Type { frame_support::scale_info::Type::builder().path(frame_support::scale_info::Path::new("RuntimeEvent", "runtime")).composite(frame_support::scale_info::build::Fields::unit()) }
        }
        #(impl From<#ca_real> for RuntimeCall { fn from(x: #ca_real) -> Self { RuntimeCall::#ca_var(x) } }
        impl frame_support::traits::IsSubType<#ca_real> for RuntimeCall {
            fn is_sub_type(&self) -> Option<&#ca_real> { match self { Self::#ca_var(x) => Some(x), #[allow(unreachable_patterns)] _ => None } }
        })*
        impl frame_support::dispatch::GetDispatchInfo for RuntimeCall {
            fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo { match self { #(Self::#ca_var(c) => c.get_dispatch_info(),)* } }
        }
        impl frame_support::traits::GetCallMetadata for RuntimeCall {
            fn get_module_names() -> &'static [&'static str] { &[#(#ca_names),*] }
            fn get_call_names(module: &str) -> &'static [&'static str] {
                match module { #(#ca_names => <#ca_ty as frame_support::traits::GetCallName>::get_call_names(),)* _ => &[] }
            }
            fn get_call_metadata(&self) -> frame_support::traits::CallMetadata {
                match self { #(Self::#ca_var(c) => frame_support::traits::CallMetadata {
                    function_name: frame_support::traits::GetCallName::get_call_name(c), pallet_name: #ca_names },)* }
            }
        }
        impl frame_support::traits::UnfilteredDispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
                match self { #(Self::#ca_var(c) => frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin),)* }
            }
        }
        impl frame_support::sp_runtime::traits::Dispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            type Config = RuntimeCall;
            type Info = frame_support::dispatch::DispatchInfo;
            type PostInfo = frame_support::dispatch::PostDispatchInfo;
            fn dispatch(self, origin: RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
                if !frame_support::traits::OriginTrait::filter_call(&origin, &self) {
                    return Err(#sys::Error::<#rt>::CallFiltered.into());
                }
                frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
            }
        }

        #[derive(Clone, PartialEq, Eq, Debug, frame_support::codec::Encode, frame_support::codec::Decode, frame_support::codec::MaxEncodedLen)]
        #[codec(crate = frame_support::codec)]
        #[allow(non_camel_case_types)]
        pub enum OriginCaller { system(#sys::RawOrigin<<#rt as #sys::Config>::AccountId>) }
        impl frame_support::scale_info::TypeInfo for OriginCaller {
            type Identity = Self;
            fn type_info() -> frame_support::scale_info::Type { frame_support::scale_info::Type::builder().path(frame_support::scale_info::Path::new("OriginCaller", "runtime")).composite(frame_support::scale_info::build::Fields::unit()) }
        }
        impl From<#sys::RawOrigin<<#rt as #sys::Config>::AccountId>> for OriginCaller { fn from(x: #sys::RawOrigin<<#rt as #sys::Config>::AccountId>) -> Self { OriginCaller::system(x) } }
        impl frame_support::traits::CallerTrait<<#rt as #sys::Config>::AccountId> for OriginCaller {
            fn into_system(self) -> Option<#sys::RawOrigin<<#rt as #sys::Config>::AccountId>> { let OriginCaller::system(x) = self; Some(x) }
            fn as_system_ref(&self) -> Option<&#sys::RawOrigin<<#rt as #sys::Config>::AccountId>> { let OriginCaller::system(x) = self; Some(x) }
        }

        #[derive(Clone)]
        pub struct RuntimeOrigin { caller: OriginCaller, filtered: bool }
        impl core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "{:?}", self.caller) } }
        impl RuntimeOrigin {
            pub fn none() -> Self { #sys::RawOrigin::None.into() }
            pub fn root() -> Self { #sys::RawOrigin::Root.into() }
            pub fn signed(by: <#rt as #sys::Config>::AccountId) -> Self { #sys::RawOrigin::Signed(by).into() }
        }
        impl From<#sys::RawOrigin<<#rt as #sys::Config>::AccountId>> for RuntimeOrigin {
            fn from(x: #sys::RawOrigin<<#rt as #sys::Config>::AccountId>) -> Self { let filtered = !matches!(x, #sys::RawOrigin::Root); RuntimeOrigin { caller: OriginCaller::system(x), filtered } }
        }
        impl From<Option<<#rt as #sys::Config>::AccountId>> for RuntimeOrigin {
            fn from(x: Option<<#rt as #sys::Config>::AccountId>) -> Self { <#sys::RawOrigin<_>>::from(x).into() }
        }
        impl From<OriginCaller> for RuntimeOrigin { fn from(x: OriginCaller) -> Self { let OriginCaller::system(x) = x; x.into() } }
        impl Into<core::result::Result<#sys::RawOrigin<<#rt as #sys::Config>::AccountId>, RuntimeOrigin>> for RuntimeOrigin {
            fn into(self) -> core::result::Result<#sys::RawOrigin<<#rt as #sys::Config>::AccountId>, RuntimeOrigin> { let OriginCaller::system(x) = self.caller; Ok(x) }
        }
        impl frame_support::traits::OriginTrait for RuntimeOrigin {
            type Call = RuntimeCall;
            type PalletsOrigin = OriginCaller;
            type AccountId = <#rt as #sys::Config>::AccountId;
            fn add_filter(&mut self, _f: impl Fn(&RuntimeCall) -> bool + 'static) {}
            fn reset_filter(&mut self) {}
            fn set_caller_from(&mut self, o: impl Into<Self>) { self.caller = o.into().caller }
            fn filter_call(&self, call: &RuntimeCall) -> bool {
                !self.filtered || <<#rt as #sys::Config>::BaseCallFilter as frame_support::traits::Contains<RuntimeCall>>::contains(call)
            }
            fn caller(&self) -> &OriginCaller { &self.caller }
            fn none() -> Self { Self::none() }
            fn root() -> Self { Self::root() }
            fn signed(by: Self::AccountId) -> Self { Self::signed(by) }
            fn as_system_ref(&self) -> Option<&#sys::RawOrigin<Self::AccountId>> { let OriginCaller::system(x) = &self.caller; Some(x) }
        }
    )
}
