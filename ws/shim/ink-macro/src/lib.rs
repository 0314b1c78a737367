//! The parts of ink's macros that /repo/contracts uses, as plain Rust.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, visit_mut::VisitMut, *};

fn is_ink(a: &Attribute) -> bool {
    a.path().is_ident("ink")
}
fn ink_args(a: &[Attribute]) -> String {
    a.iter().filter(|x| is_ink(x)).map(|x| quote!(#x).to_string()).collect::<Vec<_>>().join(" ")
}

struct Strip;
impl VisitMut for Strip {
    fn visit_item_struct_mut(&mut self, i: &mut ItemStruct) {
        i.attrs.retain(|x| !is_ink(x));
        visit_mut::visit_item_struct_mut(self, i);
    }
    fn visit_item_enum_mut(&mut self, i: &mut ItemEnum) {
        i.attrs.retain(|x| !is_ink(x));
        visit_mut::visit_item_enum_mut(self, i);
    }
    fn visit_field_mut(&mut self, i: &mut Field) {
        i.attrs.retain(|x| !is_ink(x));
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        i.attrs.retain(|x| !is_ink(x));
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        i.attrs.retain(|x| !is_ink(x));
    }
}

/// `#[ink::contract(env = path)] mod m { .. }`
#[proc_macro_attribute]
pub fn contract(args: TokenStream, input: TokenStream) -> TokenStream {
    let mut m = parse_macro_input!(input as ItemMod);
    let mut env: Type = parse_quote!(::ink::env::DefaultEnvironment);
    if !args.is_empty() {
        let nv = parse_macro_input!(args as MetaNameValue);
        if nv.path.is_ident("env") {
            let e = nv.value;
            env = parse_quote!(#e);
        }
    }
    let (_, items) = m.content.as_mut().expect("inline module");
    let mut storage = None;
    let mut events = vec![];
    for i in items.iter() {
        if let Item::Struct(s) = i {
            let a = ink_args(&s.attrs);
            if a.contains("storage") {
                storage = Some(s.ident.clone());
            }
            if a.contains("event") {
                events.push(s.ident.clone());
            }
        }
    }
    let storage = storage.expect("a storage struct");
    // test modules are not part of the contract
    items.retain(|i| !matches!(i, Item::Mod(x) if x.attrs.iter().any(|a| a.path().is_ident("cfg"))));
    for i in items.iter_mut() {
        Strip.visit_item_mut(i);
        if let Item::Struct(s) = i {
            if s.ident == storage {
                s.vis = parse_quote!(pub);
            }
        }
    }
    let add: Vec<Item> = vec![
        parse_quote!(
            #[allow(dead_code)]
            pub type Environment = #env;
        ),
        parse_quote!(
            #[allow(dead_code)]
            pub type AccountId = <Environment as ::ink::env::Environment>::AccountId;
        ),
        parse_quote!(
            #[allow(dead_code)]
            pub type Balance = <Environment as ::ink::env::Environment>::Balance;
        ),
        parse_quote!(
            #[allow(dead_code)]
            pub type Hash = <Environment as ::ink::env::Environment>::Hash;
        ),
        parse_quote!(
            #[allow(dead_code)]
            pub type Timestamp = <Environment as ::ink::env::Environment>::Timestamp;
        ),
        parse_quote!(
            #[allow(dead_code)]
            pub type BlockNumber = <Environment as ::ink::env::Environment>::BlockNumber;
        ),
        parse_quote!(
            #[allow(dead_code)]
            impl #storage {
                pub fn env(&self) -> ::ink::EnvAccess<Environment> {
                    ::ink::EnvAccess::new()
                }
            }
        ),
    ];
    items.extend(add);
    for e in events {
        items.push(parse_quote!(impl ::ink::Event for #e {}));
    }
    m.vis = parse_quote!(pub);
    quote!(#m).into()
}

/// `#[ink::chain_extension] pub trait T { type ErrorCode = E; #[ink(extension = n)] fn f(..) -> R; }`
#[proc_macro_attribute]
pub fn chain_extension(_args: TokenStream, input: TokenStream) -> TokenStream {
    let t = parse_macro_input!(input as ItemTrait);
    let (vis, name) = (&t.vis, &t.ident);
    let inst = format_ident!("__{}Instance", name);
    let mut code: Type = parse_quote!(());
    let mut fns = vec![];
    for i in &t.items {
        match i {
            TraitItem::Type(x) => {
                if let Some((_, d)) = &x.default {
                    code = d.clone();
                }
            }
            TraitItem::Fn(f) => {
                let mut id = None;
                let mut handle = true;
                for a in &f.attrs {
                    if is_ink(a) {
                        let _ = a.parse_nested_meta(|m| {
                            if m.path.is_ident("extension") {
                                let v: LitInt = m.value()?.parse()?;
                                id = Some(v.base10_parse::<u32>()?);
                            } else if m.path.is_ident("handle_status") {
                                let v: LitBool = m.value()?.parse()?;
                                handle = v.value;
                            }
                            Ok(())
                        });
                    }
                }
                let id = id.expect("extension id");
                let _ = handle;
                let fname = &f.sig.ident;
                let ins = &f.sig.inputs;
                let names: Vec<_> = ins
                    .iter()
                    .map(|a| match a {
                        FnArg::Typed(p) => p.pat.clone(),
                        _ => panic!("no receiver expected"),
                    })
                    .collect();
                let out: Type = match &f.sig.output {
                    ReturnType::Default => parse_quote!(()),
                    ReturnType::Type(_, t) => (**t).clone(),
                };
                fns.push(quote! {
                    pub fn #fname(self, #ins) -> ::core::result::Result<#out, #code> {
                        let mut args = ::ink::prelude::vec::Vec::new();
                        #( ::scale::Encode::encode_to(&#names, &mut args); )*
                        let (status, data) = ::ink::env::call_extension(#id, args);
                        <#code as ::ink::env::chain_extension::FromStatusCode>::from_status_code(status)?;
                        ::core::result::Result::Ok(<#out as ::scale::Decode>::decode(&mut &data[..]).expect("the runtime returns the declared type"))
                    }
                });
            }
            _ => {}
        }
    }
    quote! {
        #vis enum #name {}
        #[allow(non_camel_case_types)]
        pub struct #inst;
        impl #inst { #(#fns)* }
        impl ::ink::ChainExtensionInstance for #name {
            type Instance = #inst;
            fn instance() -> #inst { #inst }
        }
    }
    .into()
}
