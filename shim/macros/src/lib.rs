//! Derives, attributes and declarations used by the stand-in crates.
use proc_macro::TokenStream as T1;
use syn::{parse_macro_input, DeriveInput};
mod api;
mod codec;
mod pallet;
mod params;
mod runtime;

macro_rules! derive { ($f:ident, $n:ident, $go:expr, $($a:ident),*) => {
	#[proc_macro_derive($n, attributes($($a),*))]
	pub fn $f(t: T1) -> T1 { let i = parse_macro_input!(t as DeriveInput); let f: fn(DeriveInput) -> proc_macro2::TokenStream = $go; f(i).into() }
} }
derive!(d_encode, Encode, codec::encode, codec);
derive!(d_decode, Decode, codec::decode, codec);
derive!(d_mel, MaxEncodedLen, codec::max_encoded_len, codec, max_encoded_len_mod);
derive!(d_compact, CompactAs, codec::compact_as, codec);
derive!(d_ti, TypeInfo, codec::type_info, scale_info, codec);
derive!(d_debug, RuntimeDebug, |i| codec::debug(i, true), ignored);
derive!(d_cnb, CloneNoBound, codec::clone_nb, ignored);
derive!(d_enb, EqNoBound, codec::eq_nb, ignored);
derive!(d_pnb, PartialEqNoBound, codec::partial_eq_nb, ignored);
derive!(d_dnb, DebugNoBound, |i| codec::debug(i, false), ignored);
derive!(d_rdnb, RuntimeDebugNoBound, |i| codec::debug(i, false), ignored);
derive!(d_defnb, DefaultNoBound, codec::default_nb, default);

#[proc_macro]
pub fn __parameter_types(t: T1) -> T1 { params::parameter_types(t.into()).into() }
#[proc_macro]
pub fn decl_runtime_apis(t: T1) -> T1 { api::decl(t.into()).into() }
#[proc_macro]
pub fn impl_runtime_apis(t: T1) -> T1 { api::implement(t.into()).into() }
#[proc_macro_attribute]
pub fn rpc(_a: T1, t: T1) -> T1 { api::rpc(t.into()).into() }
#[proc_macro_attribute]
pub fn async_trait(_a: T1, t: T1) -> T1 { t }
#[proc_macro]
pub fn construct_runtime(t: T1) -> T1 { runtime::construct(t.into()).into() }
#[proc_macro_attribute]
pub fn pallet(a: T1, t: T1) -> T1 { pallet::expand(a.into(), t.into()).unwrap_or_else(|e| e.to_compile_error()).into() }
#[proc_macro_attribute]
pub fn storage_alias(a: T1, t: T1) -> T1 { pallet::storage_alias(a.into(), t.into()).unwrap_or_else(|e| e.to_compile_error()).into() }
#[proc_macro_attribute]
pub fn transactional(_a: T1, t: T1) -> T1 { pallet::transactional(t.into()).into() }
#[proc_macro_attribute]
pub fn bitflags(_a: T1, t: T1) -> T1 {
	let mut e = parse_macro_input!(t as syn::ItemEnum);
	let n = e.variants.len();
	let mut repr = quote::quote!(u8);
	for a in &e.attrs {
		if a.path().is_ident("repr") { repr = a.parse_args().unwrap(); }
	}
	for (i, v) in e.variants.iter_mut().enumerate() {
		if v.discriminant.is_none() {
			let x = syn::LitInt::new(&format!("{}", 1u64 << i), proc_macro2::Span::call_site());
			v.discriminant = Some((Default::default(), syn::parse_quote!(#x)));
		}
	}
	let name = &e.ident;
	let vs: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
	let vals: Vec<_> = e.variants.iter().map(|v| v.discriminant.clone().unwrap().1).collect();
	let _ = n;
	quote::quote! {
		#e
		impl ::enumflags2::BitFlag for #name {
			const VARIANTS: &'static [Self] = &[#(#name::#vs),*];
			type Numeric = #repr;
			fn bit(self) -> u64 { match self { #(#name::#vs => (#vals) as u64),* } }
			fn narrow(v: u64) -> #repr { v as #repr }
			fn widen(v: #repr) -> u64 { v as u64 }
		}
		impl ::core::ops::BitOr for #name { type Output = ::enumflags2::BitFlags<Self>; fn bitor(self, o: Self) -> ::enumflags2::BitFlags<Self> { ::enumflags2::BitFlags::from(self) | o } }
		impl ::core::ops::BitOr<::enumflags2::BitFlags<#name>> for #name { type Output = ::enumflags2::BitFlags<Self>; fn bitor(self, o: ::enumflags2::BitFlags<#name>) -> ::enumflags2::BitFlags<Self> { o | self } }
	}.into()
}
