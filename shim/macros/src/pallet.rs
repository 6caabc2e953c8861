use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::*;

fn is(a: &Attribute, n: &str) -> bool {
	let p = &a.path().segments;
	p.len() == 2 && p[0].ident == "pallet" && p[1].ident == n
}
fn any_pallet(a: &Attribute) -> bool { a.path().segments.len() == 2 && a.path().segments[0].ident == "pallet" }
fn take(attrs: &mut Vec<Attribute>, n: &str) -> Option<Attribute> { attrs.iter().position(|a| is(a, n)).map(|i| attrs.remove(i)) }
fn attrs_of(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Struct(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		Item::Const(x) => &mut x.attrs,
		Item::Use(x) => &mut x.attrs,
		Item::Mod(x) => &mut x.attrs,
		Item::Static(x) => &mut x.attrs,
		_ => return None,
	})
}
fn cfgs(a: &[Attribute]) -> Vec<Attribute> { a.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect() }
struct Deposit { vis: Visibility, name: Ident }
impl parse::Parse for Deposit {
	fn parse(i: parse::ParseStream) -> Result<Self> { let vis = i.parse()?; i.parse::<Token![fn]>()?; Ok(Deposit { vis, name: i.parse()? }) }
}
struct Getter(Visibility, Ident);
impl parse::Parse for Getter {
	fn parse(i: parse::ParseStream) -> Result<Self> { let v = i.parse()?; i.parse::<Token![fn]>()?; Ok(Getter(v, i.parse()?)) }
}
struct Cx { inst: bool }
impl Cx {
	/// Generics of an item that depends on the runtime.
	fn ig(&self) -> TokenStream { if self.inst { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) } }
	fn tg(&self) -> TokenStream { if self.inst { quote!(T, I) } else { quote!(T) } }
	fn cfg(&self) -> TokenStream { if self.inst { quote!(Config<I>) } else { quote!(Config) } }
}
fn never(cx: &Cx) -> Variant {
	let tg = cx.tg();
	parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#tg)>, ::frame_support::__private::Never))
}
fn positional(ty: &mut ItemType, prefix: TokenStream) -> Result<(String, Vec<Type>)> {
	let Type::Path(p) = &mut *ty.ty else { return Err(Error::new_spanned(&ty.ty, "storage type")) };
	let seg = p.path.segments.last_mut().unwrap();
	let kind = seg.ident.to_string();
	let PathArguments::AngleBracketed(ab) = &mut seg.arguments else { return Err(Error::new_spanned(seg, "storage arguments")) };
	let order: &[&str] = match kind.as_str() {
		"StorageValue" => &["Value", "QueryKind", "OnEmpty"],
		"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		"StorageNMap" => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		_ => return Err(Error::new_spanned(seg, "unknown storage")),
	};
	let mut args: Vec<Type> = vec![];
	if ab.args.iter().any(|a| matches!(a, GenericArgument::AssocType(_))) {
		for n in order {
			for a in &ab.args { if let GenericArgument::AssocType(t) = a { if t.ident == n { args.push(t.ty.clone()) } } }
		}
	} else {
		for a in ab.args.iter().skip(1) { if let GenericArgument::Type(t) = a { args.push(t.clone()) } }
	}
	let mut n = punctuated::Punctuated::new();
	n.push(GenericArgument::Type(parse2(prefix)?));
	for a in &args { n.push(GenericArgument::Type(a.clone())) }
	ab.args = n;
	Ok((kind, args))
}
pub fn expand(_a: TokenStream, t: TokenStream) -> Result<TokenStream> {
	let mut m: ItemMod = parse2(t)?;
	let (_, items) = m.content.take().ok_or_else(|| Error::new(Span::call_site(), "inline module"))?;
	let mut cx = Cx { inst: false };
	for i in &items {
		if let Item::Struct(s) = i { if s.attrs.iter().any(|a| is(a, "pallet")) { cx.inst = s.generics.type_params().count() > 1 } }
	}
	let mut ver = quote!(::frame_support::traits::StorageVersion::new(0));
	for i in &items {
		if let Item::Struct(s) = i { for a in &s.attrs { if is(a, "storage_version") { ver = a.parse_args()?; } } }
	}
	let (ig, tg, cfg) = (cx.ig(), cx.tg(), cx.cfg());
	let p = quote!(::frame_support::__private);
	let mut out = TokenStream::new();
	let (mut hooks, mut call, mut genesis) = (false, false, false);
	for mut it in items {
		let tag = attrs_of(&mut it).and_then(|a| a.iter().find(|a| any_pallet(a) && !is(a, "whitelist_storage") && !is(a, "getter") && !is(a, "generate_deposit") && !is(a, "storage_version") && !is(a, "unbounded") && !is(a, "storage_prefix")).map(|a| a.path().segments[1].ident.to_string()));
		let Some(tag) = tag else { it.to_tokens(&mut out); continue };
		match (tag.as_str(), it) {
			("config", Item::Trait(mut tr)) => {
				tr.attrs.retain(|a| !any_pallet(a));
				for i in &mut tr.items { if let TraitItem::Type(t) = i { t.attrs.retain(|a| !any_pallet(a)) } }
				if !tr.supertraits.iter().any(|b| b.to_token_stream().to_string().contains("frame_system :: Config")) && m.ident != "system_pallet" { }
				tr.to_tokens(&mut out);
			},
			("pallet", Item::Struct(mut s)) => {
				s.attrs.retain(|a| !any_pallet(a));
				let vis = &s.vis;
				let attrs = &s.attrs;
				let g = if cx.inst { quote!(T, I = ()) } else { quote!(T) };
				let name = quote!(<<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>);
				out.extend(quote! {
					#(#attrs)*
					#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound)]
					#vis struct Pallet<#g>(::core::marker::PhantomData<(#tg)>);
					impl<#ig> ::frame_support::traits::PalletInfoAccess for Pallet<#tg> {
						fn index() -> usize { #name::index::<Self>().expect("Pallet is part of the runtime") }
						fn name() -> &'static str { #name::name::<Self>().expect("Pallet is part of the runtime") }
						fn name_hash() -> [u8; 16] { ::frame_support::__private::twox_128(Self::name().as_bytes()) }
						fn module_name() -> &'static str { Self::name() }
					}
					impl<#ig> ::frame_support::traits::GetStorageVersion for Pallet<#tg> {
						type InCodeStorageVersion = ::frame_support::traits::StorageVersion;
						fn in_code_storage_version() -> ::frame_support::traits::StorageVersion { #ver }
						fn on_chain_storage_version() -> ::frame_support::traits::StorageVersion { ::frame_support::traits::StorageVersion::get::<Self>() }
					}
				});
			},
			("hooks", Item::Impl(mut im)) => {
				hooks = true;
				im.attrs.retain(|a| !any_pallet(a));
				im.to_tokens(&mut out);
			},
			("event", Item::Enum(mut e)) => {
				let dep = take(&mut e.attrs, "generate_deposit");
				e.attrs.retain(|a| !any_pallet(a));
				let name = &e.ident;
				let generic = e.generics.type_params().count() > 0;
				let (eg, et) = if generic { (quote!(<#ig>), quote!(<#tg>)) } else { (quote!(), quote!()) };
				if generic { e.variants.push(never(&cx)); }
				for v in &mut e.variants { for f in v.fields.iter_mut() { f.attrs.retain(|a| !any_pallet(a)) } }
				out.extend(quote! {
					#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, #p::Encode, #p::Decode, #p::TypeInfo)]
					#[codec(encode_bound())]
					#[codec(decode_bound())]
					#[scale_info(skip_type_params(T, I))]
					#[allow(deprecated)]
					#e
					impl #eg From<#name #et> for () { fn from(_: #name #et) {} }
				});
				if let Some(d) = dep {
					let Deposit { vis, name: f } = d.parse_args()?;
					out.extend(quote! {
						#[allow(unused)]
						impl<#ig> Pallet<#tg> {
							#vis fn #f(event: #name #et) {
								let event = <<T as #cfg>::RuntimeEvent as From<#name #et>>::from(event);
								let event = <<T as #cfg>::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
								::frame_system::Pallet::<T>::deposit_event(event)
							}
						}
					});
				}
			},
			("error", Item::Enum(mut e)) => {
				e.attrs.retain(|a| !any_pallet(a));
				let name = e.ident.clone();
				let arms: Vec<_> = e.variants.iter().map(|v| { let (i, c) = (&v.ident, cfgs(&v.attrs)); let s = i.to_string(); quote!(#(#c)* Self::#i { .. } => #s,) }).collect();
				e.variants.insert(0, never(&cx));
				out.extend(quote! {
					#[derive(#p::Encode, #p::Decode, #p::TypeInfo)]
					#[codec(encode_bound())]
					#[codec(decode_bound())]
					#[scale_info(skip_type_params(T, I))]
					#e
					impl<#tg> #name<#tg> { #[doc(hidden)] pub fn as_str(&self) -> &'static str { match self { Self::__Ignore(_, _) => unreachable!(), #(#arms)* } } }
					impl<#tg> ::core::fmt::Debug for #name<#tg> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(self.as_str()) } }
					impl<#tg> From<#name<#tg>> for &'static str { fn from(e: #name<#tg>) -> &'static str { e.as_str() } }
					impl<#ig> From<#name<#tg>> for ::frame_support::pallet_prelude::DispatchError {
						fn from(e: #name<#tg>) -> Self {
							let mut error = #p::Encode::encode(&e);
							error.resize(4, 0);
							::frame_support::pallet_prelude::DispatchError::Module(#p::ModuleError {
								index: <Pallet<#tg> as ::frame_support::traits::PalletInfoAccess>::index() as u8,
								error: error.try_into().expect("resized"),
								message: Some(e.as_str()),
							})
						}
					}
				});
			},
			("composite_enum", Item::Enum(mut e)) => {
				e.attrs.retain(|a| !any_pallet(a));
				let name = &e.ident;
				let n = e.variants.len() as u32;
				out.extend(quote! {
					#[derive(Copy, Clone, Eq, PartialEq, #p::Encode, #p::Decode, #p::MaxEncodedLen, #p::TypeInfo, Debug)]
					#e
					impl From<#name> for () { fn from(_: #name) {} }
					impl ::frame_support::traits::VariantCount for #name { const VARIANT_COUNT: u32 = #n; }
				});
			},
			("storage", Item::Type(mut ty)) => {
				let getter = take(&mut ty.attrs, "getter");
				let px = take(&mut ty.attrs, "storage_prefix");
				ty.attrs.retain(|a| !any_pallet(a));
				let name = ty.ident.clone();
				let key = match px { Some(a) => match &a.meta {
					syn::Meta::NameValue(m) => match &m.value {
						syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
						_ => return Err(syn::Error::new_spanned(&a, "expected a string")),
					},
					_ => a.parse_args::<LitStr>()?.value(),
				}, None => name.to_string() };
				let pre = format_ident!("_GeneratedPrefixForStorage{}", name);
				let (kind, args) = positional(&mut ty, quote!(#pre<#tg>))?;
				let c = cfgs(&ty.attrs);
				let vis = &ty.vis;
				out.extend(quote! {
					#(#c)* #[doc(hidden)] #vis struct #pre<#tg>(::core::marker::PhantomData<(#tg)>);
					#(#c)* impl<#ig> ::frame_support::traits::StorageInstance for #pre<#tg> {
						const STORAGE_PREFIX: &'static str = #key;
						fn pallet_prefix() -> &'static str { <Pallet<#tg> as ::frame_support::traits::PalletInfoAccess>::name() }
					}
					#ty
				});
				if let Some(g) = getter {
					let Getter(gv, g) = g.parse_args()?;
					let gv = if matches!(gv, Visibility::Inherited) { quote!(pub) } else { quote!(#gv) };
					let st = quote!(#name::<#tg>);
					let q = |v: usize| {
						let v_ = &args[v];
						let k = args.get(v + 1).map(|t| quote!(#t)).unwrap_or(quote!(::frame_support::pallet_prelude::OptionQuery));
						let d = args.get(v + 2).map(|t| quote!(#t)).unwrap_or(quote!(::frame_support::traits::GetDefault));
						quote!(<#k as ::frame_support::storage::types::QueryKindTrait<#v_, #d>>::Query)
					};
					let body = match kind.as_str() {
						"StorageValue" => { let r = q(0); quote!(#gv fn #g() -> #r { #st::get() }) },
						"StorageMap" | "CountedStorageMap" => { let (r, k) = (q(2), &args[1]); quote!(#gv fn #g<KArg: #p::EncodeLike<#k>>(k: KArg) -> #r { #st::get(k) }) },
						"StorageDoubleMap" => { let (r, k, l) = (q(4), &args[1], &args[3]); quote!(#gv fn #g<KArg1: #p::EncodeLike<#k>, KArg2: #p::EncodeLike<#l>>(k1: KArg1, k2: KArg2) -> #r { #st::get(k1, k2) }) },
						_ => { let (r, k) = (q(1), &args[0]); quote!(#gv fn #g<KArg: ::frame_support::storage::types::EncodeLikeTuple<<#k as ::frame_support::storage::types::KeyGenerator>::Key>>(k: KArg) -> #r { #st::get(k) }) },
					};
					out.extend(quote!(#(#c)* #[allow(unused, private_interfaces)] impl<#ig> Pallet<#tg> { #body }));
				}
			},
			("type_value", Item::Fn(f)) => {
				let (vis, name, g, b) = (&f.vis, &f.sig.ident, &f.sig.generics, &f.block);
				let ret = match &f.sig.output { ReturnType::Type(_, t) => quote!(#t), _ => quote!(()) };
				let ps: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
				let (i2, t2, wc) = g.split_for_impl();
				let strct = if ps.is_empty() { quote!(#vis struct #name;) } else { quote!(#vis struct #name<#(#ps),*>(::core::marker::PhantomData<(#(#ps),*)>);) };
				out.extend(quote! { #strct impl #i2 ::frame_support::traits::Get<#ret> for #name #t2 #wc { fn get() -> #ret #b } });
			},
			("genesis_config", i) => {
				genesis = true;
				match i {
					Item::Struct(mut s) => {
						s.attrs.retain(|a| !any_pallet(a) && !a.path().is_ident("serde"));
						for f in s.fields.iter_mut() { f.attrs.retain(|a| !a.path().is_ident("serde")) }
						let generic = s.generics.type_params().count() > 0;
						let (gi, gt) = if generic { (quote!(<#ig>), quote!(<#tg>)) } else { (quote!(<#ig>), quote!()) };
						out.extend(quote! {
							#s
							impl #gi ::frame_support::__private::GenesisOf<Pallet<#tg>> for GenesisConfig #gt {
								fn assimilate(&self) { <Self as ::frame_support::traits::BuildGenesisConfig>::build(self); }
							}
						});
						if generic {
							out.extend(quote! {
								impl #gi ::frame_support::__private::BuildStorage for GenesisConfig #gt {
									fn assimilate_storage(&self, s: &mut ::frame_support::__private::Storage) -> ::core::result::Result<(), ::std::string::String> {
										::frame_support::__private::BasicExternalities::execute_with_storage(s, || { <Self as ::frame_support::traits::BuildGenesisConfig>::build(self); Ok(()) })
									}
								}
							});
						}
					},
					i => i.to_tokens(&mut out),
				}
			},
			("call", Item::Impl(mut im)) => {
				call = true;
				let mut variants = TokenStream::new();
				let (mut info, mut disp, mut names, mut index, mut list) = (vec![], vec![], vec![], vec![], vec![]);
				im.attrs.retain(|a| !any_pallet(a));
				let mut next = 0u8;
				for item in &mut im.items {
					let ImplItem::Fn(f) = item else { continue };
					let idx = match take(&mut f.attrs, "call_index") { Some(a) => a.parse_args::<LitInt>()?.base10_parse::<u8>()?, None => next };
					next = idx.wrapping_add(1);
					let weight: Expr = match take(&mut f.attrs, "weight") { Some(a) => a.parse_args()?, None => parse_quote!(::frame_support::weights::Weight::zero()) };
					f.attrs.retain(|a| !any_pallet(a));
					let docs: Vec<_> = f.attrs.iter().filter(|a| a.path().is_ident("doc") || a.path().is_ident("deprecated") || a.path().is_ident("cfg")).cloned().collect();
					let c = cfgs(&f.attrs);
					let name = f.sig.ident.clone();
					let (mut fs, mut ids) = (vec![], vec![]);
					for a in f.sig.inputs.iter_mut().skip(1) {
						let FnArg::Typed(a) = a else { continue };
						let compact = take(&mut a.attrs, "compact").is_some();
						let id = match &*a.pat { Pat::Ident(i) => i.ident.clone(), x => return Err(Error::new_spanned(x, "argument name")) };
						let ty = &a.ty;
						let at = if compact { quote!(#[codec(compact)]) } else { quote!() };
						fs.push(quote!(#at #id: #ty));
						ids.push(id);
					}
					variants.extend(quote!(#(#docs)* #[codec(index = #idx)] #name { #(#fs),* },));
					info.push(quote!(#(#c)* Self::#name { #(#ids),* } => { #(let _ = &#ids;)* ::frame_support::dispatch::IntoDispatchInfo::into_dispatch_info({ #weight }) },));
					disp.push(quote!(#(#c)* Self::#name { #(#ids),* } => <Pallet<#tg>>::#name(origin, #(#ids),*).map(Into::into).map_err(Into::into),));
					let s = name.to_string();
					names.push(quote!(#(#c)* Self::#name { .. } => #s,));
					list.push(s.clone());
					index.push(idx);
					let block = &f.block;
					let ret = match &f.sig.output { ReturnType::Type(_, t) => quote!(#t), _ => quote!(()) };
					f.block = parse_quote!({ ::frame_support::storage::with_storage_layer(|| -> #ret #block) });
				}
				let arms_index = list.iter().zip(&index).map(|(n, i)| { let n = format_ident!("{}", n); quote!(Self::#n { .. } => #i,) });
				out.extend(quote! {
					#im
					#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, #p::Encode, #p::Decode, #p::TypeInfo)]
					#[codec(encode_bound())]
					#[codec(decode_bound())]
					#[scale_info(skip_type_params(T, I))]
					#[allow(non_camel_case_types, deprecated)]
					pub enum Call<#ig> {
						#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#tg)>, ::frame_support::__private::Never),
						#variants
					}
					#[allow(unused, deprecated)]
					impl<#ig> ::frame_support::dispatch::GetDispatchInfo for Call<#tg> {
						fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { Self::__Ignore(_, _) => unreachable!(), #(#info)* } }
					}
					#[allow(deprecated)]
					impl<#ig> ::frame_support::dispatch::GetCallName for Call<#tg> {
						fn get_call_name(&self) -> &'static str { match self { Self::__Ignore(_, _) => unreachable!(), #(#names)* } }
						fn get_call_names() -> &'static [&'static str] { &[#(#list),*] }
					}
					#[allow(deprecated)]
					impl<#ig> ::frame_support::dispatch::GetCallIndex for Call<#tg> {
						fn get_call_index(&self) -> u8 { match self { Self::__Ignore(_, _) => unreachable!(), #(#arms_index)* } }
						fn get_call_indices() -> &'static [u8] { &[#(#index),*] }
					}
					#[allow(deprecated)]
					impl<#ig> ::frame_support::traits::UnfilteredDispatchable for Call<#tg> {
						type RuntimeOrigin = ::frame_system::pallet_prelude::OriginFor<T>;
						fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo { match self { Self::__Ignore(_, _) => { let _ = origin; unreachable!() }, #(#disp)* } }
					}
					impl<#ig> ::frame_support::dispatch::Callable<T> for Pallet<#tg> { type RuntimeCall = Call<#tg>; }
				});
			},
			("genesis_build", mut i) | ("validate_unsigned", mut i) | ("inherent", mut i) | ("origin", mut i) | ("extra_constants", mut i) => {
				if let Some(a) = attrs_of(&mut i) { a.retain(|a| !any_pallet(a)) }
				i.to_tokens(&mut out);
			},
			(t, i) => return Err(Error::new_spanned(&i, format!("pallet::{t} is not known here"))),
		}
	}
	let _ = genesis;
	let bn = quote!(::frame_system::pallet_prelude::BlockNumberFor<T>);
	if !hooks { out.extend(quote!(impl<#ig> ::frame_support::traits::Hooks<#bn> for Pallet<#tg> {})); }
	if !call {
		out.extend(quote!(impl<#ig> ::frame_support::dispatch::Callable<T> for Pallet<#tg> { type RuntimeCall = (); }));
	}
	let h = quote!(<Self as ::frame_support::traits::Hooks<#bn>>);
	out.extend(quote! {
		impl<#ig> ::frame_support::traits::OnInitialize<#bn> for Pallet<#tg> { fn on_initialize(n: #bn) -> ::frame_support::weights::Weight { #h::on_initialize(n) } }
		impl<#ig> ::frame_support::traits::OnFinalize<#bn> for Pallet<#tg> { fn on_finalize(n: #bn) { #h::on_finalize(n) } }
		impl<#ig> ::frame_support::traits::OnIdle<#bn> for Pallet<#tg> { fn on_idle(n: #bn, w: ::frame_support::weights::Weight) -> ::frame_support::weights::Weight { #h::on_idle(n, w) } }
		impl<#ig> ::frame_support::traits::OnRuntimeUpgrade for Pallet<#tg> { fn on_runtime_upgrade() -> ::frame_support::weights::Weight { #h::on_runtime_upgrade() } }
		impl<#ig> ::frame_support::traits::OffchainWorker<#bn> for Pallet<#tg> { fn offchain_worker(n: #bn) { #h::offchain_worker(n) } }
		impl<#ig> ::frame_support::traits::IntegrityTest for Pallet<#tg> { fn integrity_test() { #h::integrity_test() } }
	});
	let (attrs, vis, name) = (&m.attrs, &m.vis, &m.ident);
	Ok(quote! { #(#attrs)* #[allow(unused_imports, non_camel_case_types, type_alias_bounds, unreachable_patterns, clippy::all)] #vis mod #name { #out } })
}
/// `type X<T: Config> = StorageMap<Pallet<T>, ...>` outside of a pallet: the first argument names the prefix.
pub fn storage_alias(a: TokenStream, t: TokenStream) -> Result<TokenStream> {
	let _ = a;
	let mut ty: ItemType = parse2(t)?;
	let name = ty.ident.clone();
	let pre = format_ident!("{}_Storage_Instance", name);
	let first = {
		let Type::Path(p) = &*ty.ty else { return Err(Error::new_spanned(&ty.ty, "storage type")) };
		let PathArguments::AngleBracketed(ab) = &p.path.segments.last().unwrap().arguments else { return Err(Error::new_spanned(&ty.ty, "arguments")) };
		let GenericArgument::Type(t) = &ab.args[0] else { return Err(Error::new_spanned(&ty.ty, "prefix")) };
		t.clone()
	};
	let ps: Vec<_> = ty.generics.type_params().map(|p| p.ident.clone()).collect();
	let (ig, tg, wc) = ty.generics.split_for_impl();
	let key = name.to_string();
	let plain = if let Type::Path(p) = &first { p.path.get_ident().map(|i| !ps.contains(i)).unwrap_or(false) } else { false };
	let prefix = if plain { let s = first.to_token_stream().to_string(); quote!(#s) } else { quote!(<#first as ::frame_support::traits::PalletInfoAccess>::name()) };
	let vis = ty.vis.clone();
	let pre_def = quote! {
		#[allow(non_camel_case_types)] #vis struct #pre<#(#ps),*>(::core::marker::PhantomData<(#(#ps),*)>);
		impl #ig ::frame_support::traits::StorageInstance for #pre #tg #wc { const STORAGE_PREFIX: &'static str = #key; fn pallet_prefix() -> &'static str { #prefix } }
	};
	let t = quote!(#pre #tg);
	positional(&mut ty, t)?;
	Ok(quote!(#pre_def #[allow(type_alias_bounds)] #ty))
}
pub fn transactional(t: TokenStream) -> TokenStream {
	let mut f: ItemFn = parse2(t).expect("function");
	let b = &f.block;
	let ret = match &f.sig.output { ReturnType::Type(_, t) => quote!(#t), _ => quote!(()) };
	f.block = parse_quote!({ ::frame_support::storage::with_storage_layer(|| -> #ret #b) });
	quote!(#f)
}
