//! Rewrites a `#[frame_support::pallet] mod pallet` to plain Rust: dispatchables become ordinary
//! functions, storage items become typed views of the key-value store in frame_support::store.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote, ToTokens};
use syn::*;

fn is_pallet(a: &Attribute) -> Option<String> {
    let s: Vec<String> = a.path().segments.iter().map(|x| x.ident.to_string()).collect();
    if s.len() == 2 && s[0] == "pallet" {
        Some(s[1].clone())
    } else {
        None
    }
}
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
    let mut o = vec![];
    attrs.retain(|a| {
        if let Some(n) = is_pallet(a) {
            o.push((n, a.clone()));
            false
        } else {
            true
        }
    });
    o
}
fn generics_use(g: &Generics) -> T2 {
    let v: Vec<Ident> = g.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.clone()) } else { None }).collect();
    quote!(#(#v),*)
}
/// Parameters without defaults.
fn generics_decl(g: &Generics) -> T2 {
    let mut g = g.clone();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.default = None;
            t.eq_token = None;
        }
    }
    let p = &g.params;
    quote!(#p)
}
fn has_i(g: &Generics) -> bool {
    g.params.iter().any(|p| matches!(p, GenericParam::Type(t) if t.ident == "I"))
}

#[proc_macro_attribute]
pub fn pallet(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut m = parse_macro_input!(item as ItemMod);
    let (brace, items) = m.content.take().expect("inline module");
    let mut out: Vec<T2> = vec![];
    // does the pallet have instances?
    let mut inst = false;
    for it in &items {
        if let Item::Trait(t) = it {
            if t.ident == "Config" {
                inst = t.generics.params.len() > 0;
            }
        }
    }
    let (pdecl, puse) = if inst { (quote!(T: Config<I>, I: 'static), quote!(T, I)) } else { (quote!(T: Config), quote!(T)) };
    let mut calls: Vec<(Ident, Vec<(Ident, Type)>)> = vec![];
    let mut have_call = false;
    for it in items {
        match it {
            Item::Trait(mut t) => {
                take(&mut t.attrs);
                for i in t.items.iter_mut() {
                    match i {
                        TraitItem::Type(x) => {
                            take(&mut x.attrs);
                        }
                        TraitItem::Const(x) => {
                            take(&mut x.attrs);
                        }
                        TraitItem::Fn(x) => {
                            take(&mut x.attrs);
                        }
                        _ => {}
                    }
                }
                out.push(t.to_token_stream());
            }
            Item::Struct(mut s) => {
                let a = take(&mut s.attrs);
                let names: Vec<&str> = a.iter().map(|x| x.0.as_str()).collect();
                if names.contains(&"genesis_config") {
                    continue;
                }
                if names.contains(&"pallet") {
                    let g = &s.generics;
                    let u = generics_use(g);
                    let vis = &s.vis;
                    let d = &g.params;
                    let dd = generics_decl(g);
                    out.push(quote!(#vis struct Pallet<#d>(core::marker::PhantomData<(#u,)>);
                        impl<#dd> frame_support::traits::PalletInfoAccess for Pallet<#u> { fn name() -> &'static str { env!("CARGO_PKG_NAME") } }
                        impl<#dd> Clone for Pallet<#u> { fn clone(&self) -> Self { Pallet(core::marker::PhantomData) } }
                        impl<#dd> core::fmt::Debug for Pallet<#u> { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
                        impl<#dd> PartialEq for Pallet<#u> { fn eq(&self, _: &Self) -> bool { true } }
                        impl<#dd> Eq for Pallet<#u> {}));
                    continue;
                }
                out.push(s.to_token_stream());
            }
            Item::Enum(mut e) => {
                let a = take(&mut e.attrs);
                let names: Vec<&str> = a.iter().map(|x| x.0.as_str()).collect();
                if names.contains(&"error") {
                    let vars: Vec<Ident> = e.variants.iter().map(|v| v.ident.clone()).collect();
                    let idx: Vec<u8> = (0..vars.len() as u8).collect();
                    let strs: Vec<String> = vars.iter().map(|v| v.to_string()).collect();
                    let u = generics_use(&e.generics);
                    let d = &e.generics.params;
                    let vis = &e.vis;
                    let dd = generics_decl(&e.generics);
                    let bd = if inst && has_i(&e.generics) { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) };
                    out.push(quote!(
                        #vis enum Error<#d> { #(#vars,)* #[doc(hidden)] __Ignore(core::marker::PhantomData<(#u,)>, core::convert::Infallible) }
                        impl<#dd> core::fmt::Debug for Error<#u> { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
                        impl<#dd> Error<#u> {
                            pub fn as_u8(&self) -> u8 { match self { #(Error::#vars => #idx,)* _ => 255 } }
                            pub fn as_str(&self) -> &'static str { match self { #(Error::#vars => #strs,)* _ => "" } }
                        }
                        impl<#bd> From<Error<#u>> for frame_support::dispatch::DispatchError {
                            fn from(e: Error<#u>) -> Self {
                                frame_support::dispatch::DispatchError::Module(frame_support::dispatch::ModuleError {
                                    index: frame_support::store::module_index(module_path!()),
                                    error: [e.as_u8(), 0, 0, 0],
                                    message: Some(e.as_str()),
                                })
                            }
                        }
                        impl<#bd> From<Error<#u>> for &'static str {
                            fn from(e: Error<#u>) -> Self { e.as_str() }
                        }
                    ));
                    continue;
                }
                if names.contains(&"event") {
                    let gd = a.iter().find(|x| x.0 == "generate_deposit");
                    let u = generics_use(&e.generics);
                    if e.generics.params.len() > 0 {
                        e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(core::marker::PhantomData<(#u,)>, core::convert::Infallible)));
                    }
                    for v in e.variants.iter_mut() {
                        take(&mut v.attrs);
                    }
                    e.attrs.retain(|a| !a.path().is_ident("derive"));
                    out.push(e.to_token_stream());
                    if let Some((_, at)) = gd {
                        // pub(super) fn deposit_event
                        let sig: T2 = match &at.meta {
                            Meta::List(l) => l.tokens.clone(),
                            _ => quote!(fn deposit_event),
                        };
                        let ev = if u.is_empty() { quote!(Event) } else { quote!(Event<#u>) };
                        out.push(quote!(impl<#pdecl> Pallet<#puse> { #[allow(dead_code)] #sig(event: #ev) { let _ = event; } }));
                    }
                    continue;
                }
                out.push(e.to_token_stream());
            }
            Item::Type(mut t) => {
                let a = take(&mut t.attrs);
                if !a.iter().any(|x| x.0 == "storage") {
                    out.push(t.to_token_stream());
                    continue;
                }
                let name = t.ident.clone();
                let pre = format_ident!("_GeneratedPrefixForStorage{}", name);
                let d = &t.generics.params;
                let dd = generics_decl(&t.generics);
                let u = generics_use(&t.generics);
                t.vis = parse_quote!(pub); // harnesses read storage directly
                let vis = &t.vis;
                let nm = name.to_string();
                let iid = if has_i(&t.generics) { quote!(frame_support::store::instance::<I>()) } else { quote!(0) };
                out.push(quote!(
                    #[doc(hidden)] #vis struct #pre<#d>(core::marker::PhantomData<(#u,)>);
                    impl<#dd> frame_support::storage::types::StorageInstance for #pre<#u> {
                        const ID: u64 = frame_support::store::item_id(concat!(module_path!(), "::", #nm));
                        fn instance() -> u64 { #iid }
                    }
                ));
                // the first argument `_` becomes the prefix; named arguments become positional
                let mut kind = String::new();
                let mut args: Vec<GenericArgument> = vec![];
                if let Type::Path(p) = &mut *t.ty {
                    let seg = p.path.segments.last_mut().unwrap();
                    kind = seg.ident.to_string();
                    if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
                        let named = ab.args.iter().any(|x| matches!(x, GenericArgument::AssocType(_)));
                        if named {
                            let order: &[&str] = match kind.as_str() {
                                "StorageValue" => &["Value", "QueryKind", "OnEmpty"],
                                "StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty"],
                                _ => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty"],
                            };
                            let mut v: Vec<GenericArgument> = vec![parse_quote!(#pre<#u>)];
                            for o in order {
                                for x in ab.args.iter() {
                                    if let GenericArgument::AssocType(y) = x {
                                        if y.ident == o {
                                            let ty = &y.ty;
                                            v.push(parse_quote!(#ty));
                                        }
                                    }
                                }
                            }
                            ab.args = v.into_iter().collect();
                        } else {
                            *ab.args.first_mut().unwrap() = parse_quote!(#pre<#u>);
                        }
                        args = ab.args.iter().cloned().collect();
                    }
                }
                out.push(t.to_token_stream());
                for (n, at) in &a {
                    if n == "getter" {
                        let toks: T2 = match &at.meta {
                            Meta::List(l) => l.tokens.clone(),
                            _ => continue,
                        };
                        let id = toks.into_iter().filter_map(|x| if let proc_macro2::TokenTree::Ident(i) = x { Some(i) } else { None }).last().unwrap();
                        let al = quote!(#name<#u>);
                        let f = match kind.as_str() {
                            "StorageValue" => quote!(pub fn #id() -> <#al as frame_support::storage::types::QueryOf>::Query { <#al>::get() }),
                            "StorageMap" | "CountedStorageMap" => {
                                let k = &args[2];
                                quote!(pub fn #id<KArg: frame_support::codec::EncodeLike<#k>>(k: KArg) -> <#al as frame_support::storage::types::QueryOf>::Query { <#al>::get(k) })
                            }
                            _ => {
                                let k1 = &args[2];
                                let k2 = &args[4];
                                quote!(pub fn #id<KArg1: frame_support::codec::EncodeLike<#k1>, KArg2: frame_support::codec::EncodeLike<#k2>>(k1: KArg1, k2: KArg2) -> <#al as frame_support::storage::types::QueryOf>::Query { <#al>::get(k1, k2) })
                            }
                        };
                        out.push(quote!(impl<#pdecl> Pallet<#puse> { #[allow(dead_code)] #f }));
                    }
                }
            }
            Item::Fn(mut f) => {
                let a = take(&mut f.attrs);
                if a.iter().any(|x| x.0 == "type_value") {
                    let name = &f.sig.ident;
                    let d = &f.sig.generics.params;
                    let dd = generics_decl(&f.sig.generics);
                    let u = generics_use(&f.sig.generics);
                    let vis = quote!(pub);
                    let b = &f.block;
                    let wc = &f.sig.generics.where_clause;
                    let r = match &f.sig.output {
                        ReturnType::Type(_, t) => t.clone(),
                        _ => panic!("type_value without a result"),
                    };
                    out.push(quote!(#vis struct #name<#d>(core::marker::PhantomData<(#u)>);
                        impl<#dd> frame_support::traits::Get<#r> for #name<#u> #wc { fn get() -> #r #b }));
                    continue;
                }
                out.push(f.to_token_stream());
            }
            Item::Impl(mut i) => {
                let a = take(&mut i.attrs);
                let names: Vec<&str> = a.iter().map(|x| x.0.as_str()).collect();
                if names.contains(&"genesis_build") || names.contains(&"validate_unsigned") || names.contains(&"inherent") {
                    continue;
                }
                let st = i.self_ty.to_token_stream().to_string();
                if st.starts_with("GenesisConfig") {
                    continue;
                }
                if names.contains(&"call") {
                    have_call = true;
                    for x in i.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            take(&mut f.attrs);
                            let mut ps = vec![];
                            for (n, p) in f.sig.inputs.iter_mut().enumerate() {
                                if let FnArg::Typed(p) = p {
                                    take(&mut p.attrs);
                                    if n > 0 {
                                        if let Pat::Ident(pi) = &*p.pat {
                                            ps.push((pi.ident.clone(), (*p.ty).clone()));
                                        }
                                    }
                                }
                            }
                            calls.push((f.sig.ident.clone(), ps));
                        }
                    }
                } else {
                    for x in i.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            take(&mut f.attrs);
                        }
                    }
                }
                out.push(i.to_token_stream());
            }
            mut o => {
                if let Item::Static(s) = &mut o {
                    take(&mut s.attrs);
                }
                out.push(o.to_token_stream());
            }
        }
    }
    let _ = have_call;
    let vars: Vec<T2> = calls.iter().map(|(n, ps)| { let (a, b): (Vec<_>, Vec<_>) = ps.iter().cloned().unzip(); quote!(#n { #(#a: #b),* }) }).collect();
    let d2 = if inst { quote!(T: Config<I>, I: 'static = ()) } else { quote!(T: Config) };
    out.push(quote!(
        #[allow(dead_code, non_camel_case_types)]
        pub enum Call<#d2> { #(#vars,)* #[doc(hidden)] __Ignore(core::marker::PhantomData<(#puse,)>, core::convert::Infallible) }
    ));
    let _ = brace;
    let attrs = &m.attrs;
    let vis = &m.vis;
    let id = &m.ident;
    quote!(#(#attrs)* #vis mod #id { #(#out)* }).into()
}

#[proc_macro_attribute]
pub fn transactional(_: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse_macro_input!(item as ItemFn);
    let (a, v, s, b) = (&f.attrs, &f.vis, &f.sig, &f.block);
    quote!(#(#a)* #v #s {
        frame_support::storage::with_transaction(|| -> frame_support::sp_runtime::TransactionOutcome<_> {
            let r = (|| { #b })();
            if r.is_ok() {
                frame_support::sp_runtime::TransactionOutcome::Commit(r)
            } else {
                frame_support::sp_runtime::TransactionOutcome::Rollback(r)
            }
        })
    })
    .into()
}
#[proc_macro_attribute]
pub fn require_transactional(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
#[proc_macro_attribute]
pub fn storage_alias(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut t = parse_macro_input!(item as ItemType);
    let name = t.ident.clone();
    let pre = format_ident!("{}Prefix", name);
    let nm = name.to_string();
    let d = &t.generics.params;
    let dd = generics_decl(&t.generics);
    let u = generics_use(&t.generics);
    if let Type::Path(p) = &mut *t.ty {
        let seg = p.path.segments.last_mut().unwrap();
        if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
            *ab.args.first_mut().unwrap() = parse_quote!(#pre<#u>);
        }
    }
    let vis = &t.vis;
    quote!(#[doc(hidden)] #vis struct #pre<#d>(core::marker::PhantomData<(#u)>);
        impl<#dd> frame_support::storage::types::StorageInstance for #pre<#u> {
            const ID: u64 = frame_support::store::item_id(concat!(module_path!(), "::", #nm));
            fn instance() -> u64 { 0 }
        }
        #t).into()
}
/// Derives that only matter for metadata or genesis: nothing is generated.
#[proc_macro_derive(DefaultNoBound)]
pub fn default_no_bound(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let (a, b, c) = d.generics.split_for_impl();
    if let Data::Struct(s) = &d.data {
        let f: Vec<T2> = match &s.fields {
            Fields::Named(x) => x.named.iter().map(|f| { let i = &f.ident; quote!(#i: Default::default()) }).collect(),
            _ => return TokenStream::new(),
        };
        return quote!(impl #a Default for #n #b #c { fn default() -> Self { Self { #(#f),* } } }).into();
    }
    TokenStream::new()
}

/// Arms `N::V(a0, a1)` of an enum (or the struct as a single arm) with two sets of bindings.
fn arms(d: &DeriveInput) -> Vec<(T2, T2, Vec<Ident>, Vec<Ident>, T2)> {
    let n = &d.ident;
    let one = |path: T2, f: &Fields| -> (T2, T2, Vec<Ident>, Vec<Ident>, T2) {
        let k = f.len();
        let a: Vec<Ident> = (0..k).map(|i| format_ident!("a{}", i)).collect();
        let b: Vec<Ident> = (0..k).map(|i| format_ident!("b{}", i)).collect();
        match f {
            Fields::Named(x) => {
                let nm: Vec<_> = x.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                (quote!(#path { #(#nm: #a),* }), quote!(#path { #(#nm: #b),* }), a.clone(), b, quote!(#path { #(#nm: Clone::clone(#a)),* }))
            }
            Fields::Unnamed(_) => (quote!(#path(#(#a),*)), quote!(#path(#(#b),*)), a.clone(), b, quote!(#path(#(Clone::clone(#a)),*))),
            Fields::Unit => (quote!(#path), quote!(#path), a, b, quote!(#path)),
        }
    };
    match &d.data {
        Data::Struct(s) => vec![one(quote!(#n), &s.fields)],
        Data::Enum(e) => e.variants.iter().map(|v| { let i = &v.ident; one(quote!(#n::#i), &v.fields) }).collect(),
        _ => panic!("union"),
    }
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let (a, b, c) = d.generics.split_for_impl();
    let ar: Vec<T2> = arms(&d).into_iter().map(|(p, _, _, _, cl)| quote!(#p => #cl,)).collect();
    quote!(impl #a Clone for #n #b #c { fn clone(&self) -> Self { match self { #(#ar)* } } }).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let (a, b, c) = d.generics.split_for_impl();
    let ar: Vec<T2> = arms(&d).into_iter().map(|(p, q, x, y, _)| quote!((#p, #q) => true #(&& #x == #y)*,)).collect();
    quote!(impl #a PartialEq for #n #b #c { fn eq(&self, o: &Self) -> bool { #[allow(unreachable_patterns)] match (self, o) { #(#ar)* _ => false } } }).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let (a, b, c) = d.generics.split_for_impl();
    quote!(impl #a Eq for #n #b #c {}).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn debug_no_bound(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let (a, b, c) = d.generics.split_for_impl();
    quote!(impl #a core::fmt::Debug for #n #b #c { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }).into()
}
