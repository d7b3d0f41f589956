//! Derives of the stand-ins for clap and sc-chain-spec.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, LitChar, LitStr};

/// A struct of positional arguments (fields without `long` or `short`) and options.
#[proc_macro_derive(Parser, attributes(arg, clap, command))]
pub fn parser(input: TokenStream) -> TokenStream {
	let input = parse_macro_input!(input as DeriveInput);
	let name = &input.ident;
	let Data::Struct(data) = &input.data else { panic!("SHIM-UNSUPPORTED: Parser of something else than a struct") };
	let Fields::Named(fields) = &data.fields else { panic!("SHIM-UNSUPPORTED: Parser without names") };
	let mut read = vec![];
	let mut names = vec![];
	let mut rest = vec![];
	for f in &fields.named {
		let id = f.ident.as_ref().unwrap();
		let (mut long, mut short) = (None::<String>, None::<char>);
		for a in f.attrs.iter().filter(|a| a.path().is_ident("arg") || a.path().is_ident("clap")) {
			let _ = a.parse_nested_meta(|m| {
				if m.path.is_ident("long") {
					long = Some(match m.value() {
						Ok(v) => v.parse::<LitStr>()?.value(),
						Err(_) => id.to_string().replace('_', "-"),
					});
				} else if m.path.is_ident("short") {
					short = Some(match m.value() {
						Ok(v) => v.parse::<LitChar>()?.value(),
						Err(_) => id.to_string().chars().next().unwrap(),
					});
				} else if let Ok(v) = m.value() {
					let _ = v.parse::<syn::Expr>()?;
				}
				Ok(())
			});
		}
		names.push(id);
		if long.is_some() || short.is_some() {
			let long = long.map(|l| format!("--{l}")).unwrap_or_default();
			let short = short.map(|s| format!("-{s}")).unwrap_or_default();
			read.push(quote! { let #id = clap::stand_in::Field::option(&mut __args, #long, #short)?; });
		} else {
			rest.push(quote! { let #id = clap::stand_in::Field::positional(&mut __args)?; });
		}
	}
	quote! {
		impl clap::Parser for #name {
			fn try_parse_words(mut __args: clap::stand_in::Words) -> Result<Self, String> {
				#(#read)*
				#(#rest)*
				__args.done()?;
				Ok(Self { #(#names),* })
			}
		}
	}
	.into()
}
#[proc_macro_derive(ChainSpecGroup)]
pub fn group(_: TokenStream) -> TokenStream {
	TokenStream::new()
}
#[proc_macro_derive(ChainSpecExtension, attributes(forks))]
pub fn extension(_: TokenStream) -> TokenStream {
	TokenStream::new()
}
