use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::{
	parse_quote, spanned::Spanned, Attribute, Error, Expr, Fields, FnArg, GenericArgument, GenericParam, Generics, Ident, ImplItem, Item, ItemEnum,
	ItemFn, ItemImpl, ItemMod, ItemStruct, ItemTrait, ItemType, Pat, PathArguments, Result, ReturnType, TraitItem, Type,
};

/// Removes the `#[pallet::..]` attributes and returns them as (name, attribute).
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
	let mut out = vec![];
	attrs.retain(|a| {
		let p = a.path();
		if p.segments.len() == 2 && p.segments[0].ident == "pallet" {
			out.push((p.segments[1].ident.to_string(), a.clone()));
			false
		} else {
			true
		}
	});
	out
}
fn attrs_of(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Const(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Mod(x) => &mut x.attrs,
		Item::Static(x) => &mut x.attrs,
		Item::Struct(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Use(x) => &mut x.attrs,
		Item::Macro(x) => &mut x.attrs,
		_ => return None,
	})
}
fn has(a: &[(String, Attribute)], n: &str) -> bool {
	a.iter().any(|x| x.0 == n)
}
fn get<'a>(a: &'a [(String, Attribute)], n: &str) -> Option<&'a Attribute> {
	a.iter().find(|x| x.0 == n).map(|x| &x.1)
}

#[derive(Default)]
struct Facts {
	config_has_event: bool,
	instance: bool,
}

pub fn expand(item: TokenStream) -> Result<TokenStream> {
	let mut m: ItemMod = syn::parse2(item)?;
	let span = m.span();
	let (brace, items) = m.content.take().ok_or_else(|| Error::new(span, "inline module expected"))?;
	let mut facts = Facts::default();
	for i in &items {
		if let Item::Trait(t) = i {
			if t.attrs.iter().any(|a| a.path().segments.last().map_or(false, |s| s.ident == "config")) {
				facts.config_has_event = t.items.iter().any(|x| matches!(x, TraitItem::Type(t) if t.ident == "RuntimeEvent"));
				facts.instance = t.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_)));
			}
		}
	}
	let mut out = vec![];
	let mut extra = vec![];
	let mut had_call = false;
	for mut i in items {
		let attrs = attrs_of(&mut i).map(take).unwrap_or_default();
		match i {
			Item::Trait(t) if has(&attrs, "config") => out.push(Item::Trait(config(t))),
			Item::Struct(s) if has(&attrs, "pallet") => {
				let (s, e) = pallet_struct(s, &facts);
				out.push(Item::Struct(s));
				extra.push(e);
			}
			Item::Type(t) if has(&attrs, "storage") => {
				let (t, e) = storage(t, &attrs, &facts)?;
				out.push(Item::Type(t));
				extra.push(e);
			}
			Item::Enum(e) if has(&attrs, "event") => {
				let (e, x) = event(e, &attrs, &facts)?;
				out.push(Item::Enum(e));
				extra.push(x);
			}
			Item::Enum(e) if has(&attrs, "error") => {
				let (e, x) = error(e, &facts)?;
				out.push(Item::Enum(e));
				extra.push(x);
			}
			Item::Enum(e) if has(&attrs, "composite_enum") => {
				out.push(Item::Enum(composite(e)));
			}
			Item::Impl(b) if has(&attrs, "call") => {
				had_call = true;
				let (b, x) = call(b, get(&attrs, "call").unwrap(), &facts)?;
				out.push(Item::Impl(b));
				extra.push(x);
			}
			Item::Fn(f) if has(&attrs, "type_value") => extra.push(type_value(f)),
			Item::Struct(mut s) if has(&attrs, "genesis_config") => {
				s.attrs.retain(|a| !a.path().is_ident("serde"));
				for f in s.fields.iter_mut() {
					take(&mut f.attrs);
					f.attrs.retain(|a| !a.path().is_ident("serde"));
				}
				out.push(Item::Struct(s));
			}
			Item::Impl(mut b) => {
				for it in b.items.iter_mut() {
					if let ImplItem::Fn(f) = it {
						take(&mut f.attrs);
					}
				}
				out.push(Item::Impl(b));
			}
			other => out.push(other),
		}
	}
	if !had_call {
		extra.push(quote!());
	}
	let ItemMod { attrs, vis, ident, .. } = m;
	let _ = brace;
	Ok(quote! {
		#(#attrs)*
		#vis mod #ident {
			#(#out)*
			#(#extra)*
		}
	})
}

fn config(mut t: ItemTrait) -> ItemTrait {
	for i in t.items.iter_mut() {
		match i {
			TraitItem::Type(x) => {
				take(&mut x.attrs);
			}
			TraitItem::Const(x) => {
				take(&mut x.attrs);
			}
			TraitItem::Fn(x) => {
				take(&mut x.attrs);
			}
			_ => {}
		}
	}
	t
}

fn names(g: &Generics) -> Vec<Ident> {
	g.params
		.iter()
		.filter_map(|p| match p {
			GenericParam::Type(t) => Some(t.ident.clone()),
			_ => None,
		})
		.collect()
}

fn pallet_struct(mut s: ItemStruct, facts: &Facts) -> (ItemStruct, TokenStream) {
	let bounds = if facts.instance { quote!(T: Config<I> + frame_support::traits::RuntimePallets, I: 'static) } else { quote!(T: Config + frame_support::traits::RuntimePallets) };
	let args = if facts.instance { quote!(T, I) } else { quote!(T) };
	let n = names(&s.generics);
	s.fields = Fields::Unnamed(parse_quote!((::core::marker::PhantomData<(#(#n),*)>)));
	let name = &s.ident;
	let (g, ty, w) = s.generics.split_for_impl();
	let e = quote! {
		impl #g ::core::clone::Clone for #name #ty #w { fn clone(&self) -> Self { Self(::core::marker::PhantomData) } }
		impl #g ::core::cmp::PartialEq for #name #ty #w { fn eq(&self, _: &Self) -> bool { true } }
		impl #g ::core::cmp::Eq for #name #ty #w {}
		impl #g ::core::fmt::Debug for #name #ty #w {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("Pallet") }
		}
		impl<#bounds> frame_support::traits::PalletInfoAccess for #name<#args> {
			fn index() -> usize { T::find(::core::any::TypeId::of::<Self>()).expect("part of the runtime").0 }
			fn name() -> &'static str { T::find(::core::any::TypeId::of::<Self>()).expect("part of the runtime").1 }
		}
	};
	(s, e)
}

fn is_ident(t: &Type, n: &str) -> bool {
	matches!(t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == n))
}

fn storage(mut t: ItemType, attrs: &[(String, Attribute)], facts: &Facts) -> Result<(ItemType, TokenStream)> {
	let name = t.ident.clone();
	let prefix = format_ident!("_GeneratedPrefixForStorage{}", name);
	let gen_names = names(&t.generics);
	let span = t.ty.span();
	let Type::Path(tp) = &mut *t.ty else { return Err(Error::new(span, "storage type expected")) };
	let seg = tp.path.segments.last_mut().unwrap();
	let kind = seg.ident.to_string();
	let order: &[&str] = match kind.as_str() {
		"StorageValue" => &["Value", "QueryKind", "OnEmpty"],
		"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		"StorageNMap" | "CountedStorageNMap" => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		_ => return Err(Error::new(seg.ident.span(), "unknown storage kind")),
	};
	let PathArguments::AngleBracketed(args) = &mut seg.arguments else { return Err(Error::new(span, "arguments expected")) };
	let mut tys: Vec<Type> = vec![];
	if args.args.iter().any(|a| matches!(a, GenericArgument::AssocType(_))) {
		let mut by_name = std::collections::BTreeMap::new();
		for a in &args.args {
			if let GenericArgument::AssocType(a) = a {
				by_name.insert(a.ident.to_string(), a.ty.clone());
			}
		}
		let defaults: std::collections::BTreeMap<&str, Type> = [
			("QueryKind", parse_quote!(frame_support::pallet_prelude::OptionQuery)),
			("OnEmpty", parse_quote!(frame_support::traits::GetDefault)),
			("MaxValues", parse_quote!(frame_support::traits::GetDefault)),
		]
		.into_iter()
		.collect();
		for n in order {
			match by_name.get(*n) {
				Some(t) => tys.push(t.clone()),
				None => tys.push(defaults.get(*n).cloned().ok_or_else(|| Error::new(span, format!("{n} missing")))?),
			}
		}
	} else {
		for (i, a) in args.args.iter().enumerate() {
			let GenericArgument::Type(t) = a else { return Err(Error::new(span, "type arguments expected")) };
			if i == 0 {
				continue;
			}
			tys.push(t.clone());
		}
	}
	let qk_at = order.iter().position(|n| *n == "QueryKind").unwrap();
	let value = tys[qk_at - 1].clone();
	let mut extra = quote!();
	let mut query: Type = parse_quote!(::core::option::Option<#value>);
	let bounds = if facts.instance { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) };
	let tyargs = if facts.instance { quote!(T, I) } else { quote!(T) };
	if let Some(qk) = tys.get(qk_at).cloned() {
		if is_ident(&qk, "ValueQuery") {
			query = value.clone();
		} else if is_ident(&qk, "ResultQuery") {
			let Type::Path(p) = &qk else { unreachable!() };
			let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments else {
				return Err(Error::new(span, "ResultQuery<Error<T>::Variant> expected"));
			};
			let Some(GenericArgument::Type(Type::Path(v))) = a.args.first() else {
				return Err(Error::new(span, "ResultQuery<Error<T>::Variant> expected"));
			};
			// Error<T>::Variant
			let mut err = v.path.clone();
			let variant = err.segments.pop().unwrap().into_value();
			err.segments.pop_punct();
			let getter = format_ident!("__Frame_Internal_Get{}Result", name);
			tys[qk_at] = parse_quote!(frame_support::pallet_prelude::ResultQuery<#err>);
			let on_empty: Type = parse_quote!(#getter<#tyargs>);
			if tys.len() > qk_at + 1 {
				tys[qk_at + 1] = on_empty;
			} else {
				tys.push(on_empty);
			}
			query = parse_quote!(::core::result::Result<#value, #err>);
			extra = quote! {
				#[doc(hidden)]
				#[allow(non_camel_case_types)]
				pub struct #getter<#tyargs>(::core::marker::PhantomData<(#tyargs)>);
				impl<#bounds> frame_support::traits::Get<::core::result::Result<#value, #err>> for #getter<#tyargs> {
					fn get() -> ::core::result::Result<#value, #err> { ::core::result::Result::Err(<#err>::#variant) }
				}
			};
		}
	}
	args.args = std::iter::once(parse_quote!(#prefix<#(#gen_names),*>))
		.chain(tys.iter().map(|t| GenericArgument::Type(t.clone())))
		.collect();

	if let Some(g) = get(attrs, "getter") {
		let list = g.meta.require_list()?;
		// `fn name`
		let toks: Vec<_> = list.tokens.clone().into_iter().collect();
		let fname = toks.last().cloned().ok_or_else(|| Error::new(span, "getter name expected"))?;
		let use_args = if gen_names.is_empty() { quote!() } else { quote!(::<#(#gen_names),*>) };
		let el = quote!(frame_support::__private::codec::EncodeLike);
		let f = match kind.as_str() {
			"StorageValue" => quote!(pub fn #fname() -> #query { #name #use_args::get() }),
			"StorageMap" | "CountedStorageMap" => {
				let k = &tys[1];
				quote!(pub fn #fname<KArg: #el<#k>>(k: KArg) -> #query { #name #use_args::get(k) })
			}
			"StorageDoubleMap" => {
				let (k1, k2) = (&tys[1], &tys[3]);
				quote!(pub fn #fname<KArg1: #el<#k1>, KArg2: #el<#k2>>(k1: KArg1, k2: KArg2) -> #query { #name #use_args::get(k1, k2) })
			}
			_ => quote!(),
		};
		extra = quote!(#extra impl<#bounds> Pallet<#tyargs> { #f });
	}
	let vis = &t.vis;
	let _ = vis;
	let sname = match get(attrs, "storage_prefix") {
		Some(a) => match &a.meta {
			syn::Meta::NameValue(nv) => nv.value.to_token_stream(),
			_ => {
				let s = name.to_string();
				quote!(#s)
			}
		},
		None => {
			let s = name.to_string();
			quote!(#s)
		}
	};
	extra = quote! {
		#extra
		#[doc(hidden)]
		#[allow(non_camel_case_types)]
		pub struct #prefix<#(#gen_names),*>(::core::marker::PhantomData<(#(#gen_names,)*)>);
		impl<#(#gen_names),*> frame_support::traits::StorageInstance for #prefix<#(#gen_names),*> {
			const STORAGE_PREFIX: &'static str = #sname;
			fn pallet_prefix() -> &'static str { ::core::module_path!() }
		}
	};
	Ok((t, extra))
}

fn event(mut e: ItemEnum, attrs: &[(String, Attribute)], facts: &Facts) -> Result<(ItemEnum, TokenStream)> {
	let n = names(&e.generics);
	if !n.is_empty() {
		e.variants.push(parse_quote!(
			#[doc(hidden)]
			__Ignore(::core::marker::PhantomData<(#(#n),*)>, frame_support::Never)
		));
	}
	e.attrs.push(parse_quote!(#[derive(frame_support::CloneNoBound, frame_support::EqNoBound, frame_support::PartialEqNoBound, frame_support::DebugNoBound)]));
	let mut x = quote!();
	if let Some(a) = get(attrs, "generate_deposit") {
		let list = a.meta.require_list()?;
		let sig = list.tokens.clone();
		let bounds = if facts.instance { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) };
		let tyargs = if facts.instance { quote!(T, I) } else { quote!(T) };
		let cfg = if facts.instance { quote!(Config<I>) } else { quote!(Config) };
		let evargs = if n.is_empty() { quote!() } else { quote!(<#(#n),*>) };
		let conv = if facts.config_has_event {
			quote! {
				let event = <<T as #cfg>::RuntimeEvent as ::core::convert::From<Event #evargs>>::from(event);
				let event = <<T as #cfg>::RuntimeEvent as ::core::convert::Into<<T as frame_system::Config>::RuntimeEvent>>::into(event);
			}
		} else {
			quote!(let event = <<T as frame_system::Config>::RuntimeEvent as ::core::convert::From<Event #evargs>>::from(event);)
		};
		x = quote! {
			impl<#bounds> Pallet<#tyargs> {
				#sig (event: Event #evargs) {
					#conv
					<frame_system::Pallet<T>>::deposit_event(event)
				}
			}
		};
	}
	Ok((e, x))
}

fn error(mut e: ItemEnum, facts: &Facts) -> Result<(ItemEnum, TokenStream)> {
	let n = names(&e.generics);
	let mut arms = vec![];
	for (i, v) in e.variants.iter().enumerate() {
		let id = &v.ident;
		let label = id.to_string();
		let i = i as u8;
		let pat = match v.fields {
			Fields::Unit => quote!(),
			Fields::Named(_) => quote!({ .. }),
			Fields::Unnamed(_) => quote!((..)),
		};
		arms.push(quote!(Self::#id #pat => (#i, #label)));
	}
	if !n.is_empty() {
		e.variants.push(parse_quote!(
			#[doc(hidden)]
			__Ignore(::core::marker::PhantomData<(#(#n),*)>, frame_support::Never)
		));
		arms.push(quote!(Self::__Ignore(..) => unreachable!()));
	}
	let name = &e.ident;
	let (g, ty, w) = e.generics.split_for_impl();
	let _ = facts;
	let x = quote! {
		impl #g #name #ty #w {
			#[doc(hidden)]
			pub fn __index_and_name(&self) -> (u8, &'static str) { match self { #(#arms,)* } }
			#[doc(hidden)]
			pub fn as_str(&self) -> &'static str { self.__index_and_name().1 }
		}
		impl #g ::core::convert::From<#name #ty> for &'static str #w {
			fn from(e: #name #ty) -> &'static str { e.__index_and_name().1 }
		}
		impl #g ::core::fmt::Debug for #name #ty #w {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.__index_and_name().1) }
		}
		impl #g ::core::convert::From<#name #ty> for frame_support::__private::sp_runtime::DispatchError #w {
			fn from(e: #name #ty) -> Self {
				let (i, n) = e.__index_and_name();
				frame_support::__private::module_error(::core::module_path!(), i, n)
			}
		}
	};
	Ok((e, x))
}

fn composite(mut e: ItemEnum) -> ItemEnum {
	e.attrs.push(parse_quote!(#[derive(
		::core::marker::Copy, ::core::clone::Clone, ::core::cmp::Eq, ::core::cmp::PartialEq, ::core::fmt::Debug,
		frame_support::pallet_prelude::Encode, frame_support::pallet_prelude::Decode,
		frame_support::pallet_prelude::MaxEncodedLen, frame_support::pallet_prelude::TypeInfo
	)]));
	e
}

fn type_value(f: ItemFn) -> TokenStream {
	let (name, vis, block) = (&f.sig.ident, &f.vis, &f.block);
	let ret = match &f.sig.output {
		ReturnType::Type(_, t) => t.to_token_stream(),
		_ => quote!(()),
	};
	let n = names(&f.sig.generics);
	let (g, _, w) = f.sig.generics.split_for_impl();
	quote! {
		#vis struct #name<#(#n),*>(::core::marker::PhantomData<(#(#n,)*)>);
		impl #g frame_support::traits::Get<#ret> for #name<#(#n),*> #w { fn get() -> #ret #block }
	}
}

fn call(mut b: ItemImpl, attr: &Attribute, facts: &Facts) -> Result<(ItemImpl, TokenStream)> {
	// #[pallet::call(weight(X))] or #[pallet::call(weight = X)]
	let mut inherited: Option<Type> = None;
	if let syn::Meta::List(l) = &attr.meta {
		let toks: Vec<_> = l.tokens.clone().into_iter().collect();
		if let (Some(a), Some(rest)) = (toks.first(), toks.get(1)) {
			if a.to_string() == "weight" {
				inherited = Some(match rest {
					proc_macro2::TokenTree::Group(g) => syn::parse2(g.stream())?,
					_ => syn::parse2(toks[2..].iter().cloned().collect())?,
				});
			}
		}
	}
	let tyargs = if facts.instance { quote!(T, I) } else { quote!(T) };
	let mut variants = vec![];
	let mut dispatch = vec![];
	let mut infos = vec![];
	let mut call_names = vec![];
	let mut index_arms = vec![];
	for (pos, it) in b.items.iter_mut().enumerate() {
		let ImplItem::Fn(f) = it else { continue };
		let attrs = take(&mut f.attrs);
		let name = f.sig.ident.clone();
		let index: u8 = match get(&attrs, "call_index") {
			Some(a) => {
				let l: syn::LitInt = a.parse_args()?;
				l.base10_parse()?
			}
			None => pos as u8,
		};
		let weight: Expr = match get(&attrs, "weight") {
			Some(a) => a.parse_args()?,
			None => match &inherited {
				Some(t) => parse_quote!(<#t>::#name()),
				None => parse_quote!(frame_support::weights::Weight::zero()),
			},
		};
		let (mut fields, mut idents) = (vec![], vec![]);
		for a in f.sig.inputs.iter_mut().skip(1) {
			let FnArg::Typed(p) = a else { return Err(Error::new(a.span(), "no self in calls")) };
			let pa = take(&mut p.attrs);
			let compact = has(&pa, "compact");
			let id = match &*p.pat {
				Pat::Ident(i) => i.ident.clone(),
				other => return Err(Error::new(other.span(), "plain argument names expected")),
			};
			let ty = &p.ty;
			let c = if compact { quote!(#[codec(compact)]) } else { quote!() };
			let field = format_ident!("{}", id.to_string().trim_start_matches('_'));
			fields.push(quote!(#c #field: #ty));
			idents.push(field);
		}
		// Every call runs in its own storage layer, also when called as a function.
		let block = &f.block;
		f.block = parse_quote!({ frame_support::storage::with_storage_layer(|| #block) });
		variants.push(quote!(#[codec(index = #index)] #name { #(#fields),* }));
		dispatch.push(quote! {
			Self::#name { #(#idents),* } =>
				<Pallet<#tyargs>>::#name(origin, #(#idents),*).map(::core::convert::Into::into).map_err(::core::convert::Into::into)
		});
		infos.push(quote! {
			#[allow(unused_variables)]
			Self::#name { #(#idents),* } => frame_support::dispatch::WeighCall::info(#weight)
		});
		let s = name.to_string();
		call_names.push(s.clone());
		index_arms.push(quote!(Self::#name { .. } => (#index, #s)));
	}
	let bounds = if facts.instance { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) };
	let decl = if facts.instance { quote!(T: Config<I>, I: 'static = ()) } else { quote!(T: Config) };
	let marker = if facts.instance { quote!((T, I)) } else { quote!(T) };
	let x = quote! {
		#[derive(frame_support::CloneNoBound, frame_support::EqNoBound, frame_support::PartialEqNoBound, frame_support::DebugNoBound,
			frame_support::__private::codec::Encode, frame_support::__private::codec::Decode)]
		#[codec(crate = frame_support::__private::codec)]
		#[codec(encode_bound())]
		#[codec(decode_bound())]
		#[allow(non_camel_case_types)]
		pub enum Call<#decl> {
			#[doc(hidden)]
			#[codec(skip)]
			__Ignore(::core::marker::PhantomData<#marker>, frame_support::Never),
			#(#variants),*
		}
		impl<#bounds> frame_support::__private::scale_info::TypeInfo for Call<#tyargs> {
			type Identity = Self;
			fn type_info() -> frame_support::__private::scale_info::Type {
				frame_support::__private::opaque_type(::core::module_path!())
			}
		}
		impl<#bounds> Call<#tyargs> {
			#[doc(hidden)]
			pub fn __index_and_name(&self) -> (u8, &'static str) {
				match self { Self::__Ignore(..) => unreachable!(), #(#index_arms),* }
			}
		}
		impl<#bounds> frame_support::traits::GetCallName for Call<#tyargs> {
			fn get_call_names() -> &'static [&'static str] { &[#(#call_names),*] }
			fn get_call_name(&self) -> &'static str { self.__index_and_name().1 }
		}
		impl<#bounds> frame_support::dispatch::GetDispatchInfo for Call<#tyargs> {
			fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
				match self { Self::__Ignore(..) => unreachable!(), #(#infos),* }
			}
		}
		impl<#bounds> frame_support::traits::UnfilteredDispatchable for Call<#tyargs> {
			type RuntimeOrigin = frame_system::pallet_prelude::OriginFor<T>;
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
				match self { Self::__Ignore(..) => unreachable!(), #(#dispatch),* }
			}
		}
		impl<#bounds> frame_support::dispatch::Callable<T> for Pallet<#tyargs> {
			type RuntimeCall = Call<#tyargs>;
		}
	};
	Ok((b, x))
}
