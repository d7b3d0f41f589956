//! Stand-in for frame-support-procedural: the `pallet` attribute and the derives without bounds.
mod no_bound;
mod pallet;

use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
	pallet::expand(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}

/// Runs the function in a storage layer that is undone when it returns an error.
#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let mut f = syn::parse_macro_input!(item as syn::ItemFn);
	let block = f.block.clone();
	f.block = Box::new(syn::parse_quote!({ frame_support::storage::with_storage_layer(|| #block) }));
	quote!(#f).into()
}
#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(input: TokenStream) -> TokenStream {
	no_bound::clone(syn::parse_macro_input!(input)).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(input: TokenStream) -> TokenStream {
	no_bound::partial_eq(syn::parse_macro_input!(input)).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(input: TokenStream) -> TokenStream {
	no_bound::eq(syn::parse_macro_input!(input)).into()
}
#[proc_macro_derive(OrdNoBound)]
pub fn ord_no_bound(input: TokenStream) -> TokenStream {
	no_bound::ord(syn::parse_macro_input!(input)).into()
}
#[proc_macro_derive(PartialOrdNoBound)]
pub fn partial_ord_no_bound(input: TokenStream) -> TokenStream {
	no_bound::partial_ord(syn::parse_macro_input!(input)).into()
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(input: TokenStream) -> TokenStream {
	no_bound::debug(syn::parse_macro_input!(input)).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_no_bound(input: TokenStream) -> TokenStream {
	no_bound::debug(syn::parse_macro_input!(input)).into()
}
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_no_bound(input: TokenStream) -> TokenStream {
	no_bound::default(syn::parse_macro_input!(input)).into()
}
#[proc_macro_derive(PalletError, attributes(codec))]
pub fn pallet_error(_input: TokenStream) -> TokenStream {
	TokenStream::new()
}
mod runtime;

/// Declares the pallets of the runtime.
#[proc_macro_attribute]
pub fn runtime(_attr: TokenStream, item: TokenStream) -> TokenStream {
	runtime::expand(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
/// Fills in the types a configuration leaves out.
#[proc_macro_attribute]
pub fn derive_impl(_attr: TokenStream, item: TokenStream) -> TokenStream {
	runtime::derive_impl(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
/// Keeps the runtime's interface functions callable, under `apis`.
#[proc_macro]
pub fn impl_runtime_apis(item: TokenStream) -> TokenStream {
	runtime::apis(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn runtime_version(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}
