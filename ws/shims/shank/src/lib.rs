//! Stand-in for the `shank` git dependency, which is not available offline.
//!
//! `ShankInstruction` only feeds IDL generation and expands to nothing.
//! `ShankContext` generates `accounts::{Context, <Variant>Accounts}` with one
//! `&AccountInfo` field per `#[account(idx, .., name = "..")]` attribute and a
//! `context()` constructor that checks the number of accounts, as shank does.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Expr, Lit, Meta, Token, punctuated::Punctuated};

#[proc_macro_derive(ShankInstruction, attributes(account, idl_instruction, args))]
pub fn shank_instruction(_: TokenStream) -> TokenStream { TokenStream::new() }

#[proc_macro_derive(ShankContext, attributes(account, idl_instruction, args))]
pub fn shank_context(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let Data::Enum(e) = input.data else { panic!("ShankContext: enum expected") };
    let mut out = Vec::new();
    for v in &e.variants {
        let ident = format_ident!("{}Accounts", v.ident);
        let mut fields: Vec<(usize, syn::Ident)> = vec![];
        for a in &v.attrs {
            if !a.path().is_ident("account") { continue; }
            let mut idx = None;
            let mut name = None;
            let args = a.parse_args_with(Punctuated::<Expr, Token![,]>::parse_terminated).expect("account attr");
            for ex in args {
                match ex {
                    Expr::Lit(l) => if let Lit::Int(i) = l.lit { idx = Some(i.base10_parse::<usize>().unwrap()) },
                    Expr::Assign(asg) => {
                        if let (Expr::Path(p), Expr::Lit(l)) = (&*asg.left, &*asg.right) {
                            if p.path.is_ident("name") { if let Lit::Str(s) = &l.lit { name = Some(s.value()); } }
                        }
                    }
                    _ => {}
                }
            }
            let i = idx.unwrap_or(fields.len());
            fields.push((i, format_ident!("{}", name.expect("account name"))));
        }
        fields.sort_by_key(|f| f.0);
        for (n, f) in fields.iter().enumerate() { assert_eq!(n, f.0, "account indexes must be consecutive"); }
        let n = fields.len();
        let names: Vec<_> = fields.iter().map(|f| f.1.clone()).collect();
        let idxs: Vec<_> = fields.iter().map(|f| f.0).collect();
        out.push(quote! {
            pub struct #ident<'a> { #(pub #names: &'a ::pinocchio::account_info::AccountInfo,)* }
            impl<'a> #ident<'a> {
                pub fn context(accounts: &'a [::pinocchio::account_info::AccountInfo])
                    -> Result<Context<Self>, ::pinocchio::program_error::ProgramError> {
                    if accounts.len() < #n {
                        return Err(::pinocchio::program_error::ProgramError::NotEnoughAccountKeys);
                    }
                    Ok(Context { accounts: Self { #(#names: &accounts[#idxs],)* } })
                }
            }
        });
    }
    let _ = Meta::Path;
    quote! {
        pub mod accounts {
            pub struct Context<T> { pub accounts: T }
            #(#out)*
        }
    }.into()
}
