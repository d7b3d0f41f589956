//! The attributes a runtime is written with.
use proc_macro2::{Ident, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::{parse_quote, spanned::Spanned, Error, GenericArgument, ImplItem, Item, ItemImpl, ItemMod, PathArguments, Result, Type};

/// What a pallet adds to the outer types, by the last segment of its path.
fn parts(pallet: &str) -> &'static str {
	match pallet {
		"frame_system" => "CE",
		"pallet_custom_origins" => "O",
		"pallet_communities" => "CEOF",
		"pallet_payments" => "CEH",
		"pallet_xcm" => "CEO",
		"cumulus_pallet_xcm" => "EO",
		"pallet_preimage" | "pallet_contracts" => "CEH",
		"pallet_transaction_payment" | "pallet_assets_freezer" | "pallet_asset_tx_payment" | "pallet_skip_feeless_payment"
		| "pallet_gas_transaction_payment" => "E",
		"pallet_timestamp" => "C",
		"parachain_info" | "pallet_authorship" | "pallet_aura" | "cumulus_pallet_aura_ext" => "",
		_ => "CE",
	}
}

pub fn expand(item: TokenStream) -> Result<TokenStream> {
	let m: ItemMod = syn::parse2(item)?;
	let items = m.content.as_ref().map(|c| c.1.clone()).ok_or_else(|| Error::new(m.span(), "inline module expected"))?;
	let mut runtime: Option<Ident> = None;
	let (mut calls, mut events, mut origins, mut holds, mut freezes) = (vec![], vec![], vec![], vec![], vec![]);
	let (mut aliases, mut all, mut finds) = (vec![], vec![], vec![]);
	for it in items {
		match it {
			Item::Struct(s) => runtime = Some(s.ident),
			Item::Type(t) => {
				let r = runtime.clone().unwrap_or_else(|| format_ident!("Runtime"));
				let mut index = None;
				for a in &t.attrs {
					if a.path().segments.last().map_or(false, |s| s.ident == "pallet_index") {
						index = Some(a.parse_args::<syn::LitInt>()?);
					}
				}
				let index = index.ok_or_else(|| Error::new(t.span(), "the stand-in expects explicit pallet indexes"))?;
				let mut ty = &*t.ty;
				// `trait object` syntax (pallet + parts) is not in use
				if let Type::Group(g) = ty {
					ty = &g.elem;
				}
				let Type::Path(p) = ty else { return Err(Error::new(t.span(), "path expected")) };
				let mut path = p.path.clone();
				let last = path.segments.last_mut().expect("not empty");
				let pallet = last.ident.to_string();
				let mut instance = None;
				if let PathArguments::AngleBracketed(a) = &last.arguments {
					for a in &a.args {
						if let GenericArgument::Type(i) = a {
							instance = Some(i.clone());
						}
					}
				}
				last.arguments = PathArguments::None;
				let args = match &instance {
					Some(i) => quote!(<#r, #path::#i>),
					None => quote!(<#r>),
				};
				let name = &t.ident;
				let label = name.to_string();
				let has = |c: char| parts(&pallet).contains(c);
				if has('C') {
					calls.push(quote!(#name(#index): #path::Call #args));
				}
				if has('E') {
					events.push(quote!(#name(#index): #path::Event #args));
				}
				if has('O') {
					let ot = if pallet == "pallet_communities" { quote!(#path::Origin #args) } else { quote!(#path::Origin) };
					origins.push(quote!(#name(#index): #ot));
				}
				if has('H') {
					holds.push(quote!(#name(#index): #path::HoldReason));
				}
				if has('F') {
					freezes.push(quote!(#name(#index): #path::FreezeReason));
				}
				if pallet != "frame_system" {
					aliases.push(quote!(pub type #name = #path::Pallet #args;));
				}
				finds.push(quote! {
					if id == ::core::any::TypeId::of::<#path::Pallet #args>() { return Some((#index, #label)) }
				});
				all.push(quote!(#name));
			}
			_ => {}
		}
	}
	let r = runtime.ok_or_else(|| Error::new(m.span(), "no runtime struct"))?;
	Ok(quote! {
		frame_system::mini_runtime! {
			runtime: #r, account: <#r as frame_system::Config>::AccountId,
			calls: { #(#calls),* },
			events: { #(#events),* },
			origins: { #(#origins),* },
			holds: { #(#holds),* },
			freezes: { #(#freezes),* },
		}
		#(#aliases)*
		pub type AllPalletsWithSystem = (#(#all,)*);
		impl frame_support::traits::RuntimePallets for #r {
			fn find(id: ::core::any::TypeId) -> Option<(usize, &'static str)> { #(#finds)* None }
		}
		pub struct RuntimeGenesisConfig;
	})
}

const KEPT: [&str; 11] = [
	"RuntimeEvent", "BaseCallFilter", "RuntimeOrigin", "RuntimeCall", "Nonce", "Hash", "Hashing", "AccountId", "Lookup", "BlockNumber",
	"DbWeight",
];
const EXTRA: [&str; 9] =
	["Block", "BlockHashCount", "Version", "AccountData", "BlockWeights", "BlockLength", "SS58Prefix", "OnSetCode", "MaxConsumers"];

pub fn derive_impl(item: TokenStream) -> Result<TokenStream> {
	let mut i: ItemImpl = syn::parse2(item)?;
	let mut given: Vec<(String, Type)> = vec![];
	for it in &i.items {
		if let ImplItem::Type(t) = it {
			given.push((t.ident.to_string(), t.ty.clone()));
		}
	}
	let path = i.trait_.as_ref().map(|t| t.1.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
	if !path.starts_with("frame_system") {
		return Ok(i.into_token_stream());
	}
	let find = |n: &str| given.iter().find(|g| g.0 == n).map(|g| g.1.clone());
	i.items.retain(|it| match it {
		ImplItem::Type(t) => KEPT.contains(&t.ident.to_string().as_str()),
		_ => true,
	});
	let defaults: [(&str, Type); 9] = [
		("RuntimeEvent", parse_quote!(RuntimeEvent)),
		("RuntimeCall", parse_quote!(RuntimeCall)),
		("RuntimeOrigin", parse_quote!(RuntimeOrigin)),
		("BaseCallFilter", parse_quote!(frame_support::traits::Everything)),
		("Nonce", parse_quote!(u32)),
		("Hash", parse_quote!(frame_support::sp_runtime::testing::H256)),
		("Hashing", parse_quote!(frame_support::sp_runtime::traits::BlakeTwo256)),
		("DbWeight", parse_quote!(())),
		("Lookup", parse_quote!(frame_support::sp_runtime::traits::AccountIdLookup<<Self as frame_system::Config>::AccountId, ()>)),
	];
	for (n, ty) in defaults {
		if find(n).is_none() {
			let n = format_ident!("{}", n);
			i.items.push(parse_quote!(type #n = #ty;));
		}
	}
	if find("BlockNumber").is_none() {
		let ty: Type = match find("Block") {
			Some(b) => parse_quote!(<<#b as frame_support::sp_runtime::traits::Block>::Header as frame_support::sp_runtime::traits::Header>::Number),
			None => parse_quote!(u32),
		};
		i.items.push(parse_quote!(type BlockNumber = #ty;));
	}
	let me = &i.self_ty;
	let extra = EXTRA.iter().map(|n| {
		let ty = find(n).unwrap_or_else(|| parse_quote!(()));
		let n = format_ident!("{}", n);
		quote!(type #n = #ty;)
	});
	Ok(quote! {
		#i
		impl frame_system::ConfigExtra for #me { #(#extra)* }
	})
}

/// The interface functions that can be called on the stand-ins.
const CALLABLE: [&str; 11] = [
	"slot_duration",
	"version",
	"validate_transaction",
	"query_account_balances",
	"account_nonce",
	"query_info",
	"query_fee_details",
	"query_call_info",
	"query_call_fee_details",
	"query_weight_to_fee",
	"query_length_to_fee",
];

struct Impls(Vec<ItemImpl>);
impl syn::parse::Parse for Impls {
	fn parse(input: syn::parse::ParseStream) -> Result<Self> {
		let mut v = vec![];
		while !input.is_empty() {
			v.push(input.parse()?);
		}
		Ok(Impls(v))
	}
}
pub fn apis(item: TokenStream) -> Result<TokenStream> {
	let Impls(v) = syn::parse2(item)?;
	let mut fns = vec![];
	let mut seen = vec![];
	for i in v {
		if i.attrs.iter().any(|a| a.path().is_ident("cfg")) {
			continue;
		}
		for it in i.items {
			if let ImplItem::Fn(mut f) = it {
				let n = f.sig.ident.to_string();
				if CALLABLE.contains(&n.as_str()) {
					// Of two interfaces with a function of the same name the second has its number.
					let before = seen.iter().filter(|s| **s == n).count();
					seen.push(n.clone());
					f.sig.ident = if before == 0 { format_ident!("api_{}", n) } else { format_ident!("api_{}_{}", n, before + 1) };
					f.vis = parse_quote!(pub);
					fns.push(f);
				}
			}
		}
	}
	Ok(quote! {
		impl Runtime { #(#fns)* }
		pub const RUNTIME_API_VERSIONS: sp_version::ApisVec = sp_version::no_apis();
		pub struct RuntimeApi;
	})
}
