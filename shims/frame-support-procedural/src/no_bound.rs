use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields, Ident};

fn binds(f: &Fields, prefix: &str) -> (TokenStream, Vec<Ident>) {
	match f {
		Fields::Unit => (quote!(), vec![]),
		Fields::Named(n) => {
			let names: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect();
			let vars: Vec<_> = names.iter().map(|n| format_ident!("{}{}", prefix, n)).collect();
			(quote!({ #(#names: #vars),* }), vars)
		}
		Fields::Unnamed(u) => {
			let vars: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("{}{}", prefix, i)).collect();
			(quote!(( #(#vars),* )), vars)
		}
	}
}
fn arms(d: &DeriveInput) -> Vec<(TokenStream, String, Fields)> {
	match &d.data {
		Data::Struct(s) => vec![(quote!(Self), d.ident.to_string(), s.fields.clone())],
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let i = &v.ident;
				(quote!(Self::#i), i.to_string(), v.fields.clone())
			})
			.collect(),
		_ => vec![],
	}
}
pub fn clone(d: DeriveInput) -> TokenStream {
	let (g, ty, w) = d.generics.split_for_impl();
	let name = &d.ident;
	let arms = arms(&d).into_iter().map(|(path, _, f)| {
		let (pat, vars) = binds(&f, "a_");
		let out = match &f {
			Fields::Unit => quote!(),
			Fields::Named(n) => {
				let names: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect();
				quote!({ #(#names: ::core::clone::Clone::clone(#vars)),* })
			}
			Fields::Unnamed(_) => quote!(( #(::core::clone::Clone::clone(#vars)),* )),
		};
		quote!(#path #pat => #path #out)
	});
	let body = if arms.len() == 0 { quote!(unreachable!()) } else { quote!(match self { #(#arms,)* }) };
	quote!(impl #g ::core::clone::Clone for #name #ty #w { fn clone(&self) -> Self { #body } })
}
pub fn partial_eq(d: DeriveInput) -> TokenStream {
	let (g, ty, w) = d.generics.split_for_impl();
	let name = &d.ident;
	let arms = arms(&d).into_iter().map(|(path, _, f)| {
		let (p1, v1) = binds(&f, "a_");
		let (p2, v2) = binds(&f, "b_");
		quote!((#path #p1, #path #p2) => true #(&& #v1 == #v2)*)
	});
	quote!(impl #g ::core::cmp::PartialEq for #name #ty #w {
		fn eq(&self, other: &Self) -> bool { #[allow(unreachable_patterns)] match (self, other) { #(#arms,)* _ => false } }
	})
}
pub fn eq(d: DeriveInput) -> TokenStream {
	let (g, ty, w) = d.generics.split_for_impl();
	let name = &d.ident;
	quote!(impl #g ::core::cmp::Eq for #name #ty #w {})
}
pub fn debug(d: DeriveInput) -> TokenStream {
	let (g, ty, w) = d.generics.split_for_impl();
	let name = &d.ident;
	let arms = arms(&d).into_iter().map(|(path, label, f)| {
		let (pat, vars) = binds(&f, "a_");
		let out = match &f {
			Fields::Named(n) => {
				let names: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap().to_string()).collect();
				quote!(f.debug_struct(#label) #(.field(#names, #vars))* .finish())
			}
			_ => quote!(f.debug_tuple(#label) #(.field(#vars))* .finish()),
		};
		quote!(#path #pat => #out)
	});
	let body = if arms.len() == 0 { quote!(unreachable!()) } else { quote!(match self { #(#arms,)* }) };
	quote!(impl #g ::core::fmt::Debug for #name #ty #w {
		fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { #body }
	})
}
pub fn default(d: DeriveInput) -> TokenStream {
	let (g, ty, w) = d.generics.split_for_impl();
	let name = &d.ident;
	let fill = |f: &Fields| match f {
		Fields::Unit => quote!(),
		Fields::Named(n) => {
			let names: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect();
			quote!({ #(#names: ::core::default::Default::default()),* })
		}
		Fields::Unnamed(u) => {
			let d = u.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
			quote!(( #(#d),* ))
		}
	};
	let body = match &d.data {
		Data::Struct(s) => {
			let f = fill(&s.fields);
			quote!(Self #f)
		}
		Data::Enum(e) => {
			let v = e
				.variants
				.iter()
				.find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
				.or(e.variants.first())
				.expect("a default variant");
			let i = &v.ident;
			let f = fill(&v.fields);
			quote!(Self::#i #f)
		}
		_ => quote!(unreachable!()),
	};
	quote!(impl #g ::core::default::Default for #name #ty #w { fn default() -> Self { #body } })
}
pub fn ord(d: DeriveInput) -> TokenStream {
	let (g, ty, w) = d.generics.split_for_impl();
	let name = &d.ident;
	let all = arms(&d);
	let places = all.iter().enumerate().map(|(i, (path, _, f))| {
		let any = match f {
			Fields::Unit => quote!(),
			Fields::Named(_) => quote!({ .. }),
			Fields::Unnamed(_) => quote!((..)),
		};
		quote!(#path #any => #i)
	});
	let arms = all.iter().map(|(path, _, f)| {
		let (p1, v1) = binds(f, "a_");
		let (p2, v2) = binds(f, "b_");
		quote!((#path #p1, #path #p2) => ::core::cmp::Ordering::Equal #(.then_with(|| ::core::cmp::Ord::cmp(#v1, #v2)))*)
	});
	quote!(impl #g ::core::cmp::Ord for #name #ty #w {
		fn cmp(&self, other: &Self) -> ::core::cmp::Ordering {
			let place = |x: &Self| -> usize { match x { #(#places,)* } };
			#[allow(unreachable_patterns)]
			match (self, other) { #(#arms,)* _ => place(self).cmp(&place(other)) }
		}
	})
}
pub fn partial_ord(d: DeriveInput) -> TokenStream {
	let (g, ty, w) = d.generics.split_for_impl();
	let name = &d.ident;
	quote!(impl #g ::core::cmp::PartialOrd for #name #ty #w { fn partial_cmp(&self, other: &Self) -> ::core::option::Option<::core::cmp::Ordering> { ::core::option::Option::Some(::core::cmp::Ord::cmp(self, other)) } })
}
