//! Stand-in for anagrambuild/shank (a git dependency that cannot be fetched
//! offline). Generates, as the original does, a `Context` and one
//! `<Variant>Accounts` struct per instruction variant from its `#[account(..)]`
//! attributes. The original's `context` only checks the number of accounts.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Expr, ExprLit, Lit, Meta, Token};

#[proc_macro_derive(ShankInstruction, attributes(account, idl_instruction, args))]
pub fn shank_instruction(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(ShankAccount, attributes(idl_type, padding, seeds, skip))]
pub fn shank_account(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(ShankType, attributes(idl_type, skip))]
pub fn shank_type(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

#[proc_macro_derive(ShankContext, attributes(account))]
pub fn shank_context(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let Data::Enum(en) = input.data else {
        panic!("ShankContext: enum expected")
    };
    let mut out = Vec::new();
    for v in en.variants.iter() {
        let mut names: Vec<(usize, String)> = Vec::new();
        for a in v.attrs.iter().filter(|a| a.path().is_ident("account")) {
            let items = a
                .parse_args_with(
                    syn::punctuated::Punctuated::<AccItem, Token![,]>::parse_terminated,
                )
                .unwrap();
            let mut idx = None;
            let mut name = None;
            for it in items {
                match it {
                    AccItem::Idx(i) => idx = Some(i),
                    AccItem::Meta(Meta::NameValue(nv)) if nv.path.is_ident("name") => {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = nv.value {
                            name = Some(s.value());
                        }
                    }
                    AccItem::Meta(Meta::Path(p)) if p.is_ident("optional") => {
                        panic!("optional accounts are not modelled by the shank stand-in")
                    }
                    _ => {}
                }
            }
            names.push((idx.unwrap(), name.unwrap()));
        }
        names.sort();
        let sname = format_ident!("{}Accounts", v.ident);
        let fields: Vec<_> = names.iter().map(|(_, n)| format_ident!("{}", n)).collect();
        let idxs: Vec<usize> = (0..fields.len()).collect();
        let n = fields.len();
        out.push(quote! {
            
            pub struct #sname<'a> { #(pub #fields: &'a AccountInfo,)* }
            impl<'a> #sname<'a> {
                pub fn context(accounts: &'a [AccountInfo]) -> Result<Context<'a, Self>, ProgramError> {
                    if accounts.len() < #n { return Err(ProgramError::NotEnoughAccountKeys); }
                    Ok(Context {
                        accounts: Self { #(#fields: &accounts[#idxs],)* },
                        remaining_accounts: &accounts[#n..],
                    })
                }
            }
        });
    }
    quote! {
        pub mod accounts {
            use super::*;
            
            pub struct Context<'a, T> { pub accounts: T, pub remaining_accounts: &'a [AccountInfo] }
            #(#out)*
        }
    }
    .into()
}

enum AccItem {
    Idx(usize),
    Meta(Meta),
}
impl syn::parse::Parse for AccItem {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        if input.peek(syn::LitInt) {
            let l: syn::LitInt = input.parse()?;
            Ok(AccItem::Idx(l.base10_parse()?))
        } else {
            Ok(AccItem::Meta(input.parse()?))
        }
    }
}
