use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::parse::{Parse, ParseStream};
use syn::*;

pub struct Item { attrs: Vec<Attribute>, vis: Visibility, kind: Kind, name: Ident, generics: Generics, ty: Type, val: Expr }
enum Kind { Const, Value, Storage, Static }
mod kw { syn::custom_keyword!(storage); }
impl Parse for Item {
	fn parse(i: ParseStream) -> Result<Self> {
		let attrs = i.call(Attribute::parse_outer)?;
		let vis = i.parse()?;
		let kind = if i.peek(Token![const]) { i.parse::<Token![const]>()?; Kind::Const }
			else if i.peek(Token![static]) { i.parse::<Token![static]>()?; Kind::Static }
			else if i.peek(kw::storage) && !i.peek2(Token![:]) { i.parse::<kw::storage>()?; Kind::Storage }
			else { Kind::Value };
		let name = i.parse()?;
		let generics = i.parse()?;
		i.parse::<Token![:]>()?;
		let ty = i.parse()?;
		i.parse::<Token![=]>()?;
		let val = i.parse()?;
		let _ = i.parse::<Option<Token![;]>>()?;
		Ok(Item { attrs, vis, kind, name, generics, ty, val })
	}
}
struct Input { base: TokenStream, items: Vec<Item> }
impl Parse for Input {
	fn parse(i: ParseStream) -> Result<Self> {
		let c;
		bracketed!(c in i);
		let base = c.parse()?;
		let mut items = vec![];
		while !i.is_empty() { items.push(i.parse()?) }
		Ok(Input { base, items })
	}
}
pub fn snake(s: &str) -> String {
	let mut o = String::new();
	let cs: Vec<char> = s.chars().collect();
	for (i, c) in cs.iter().enumerate() {
		if c.is_uppercase() {
			if i > 0 && (!cs[i - 1].is_uppercase() || cs.get(i + 1).map_or(false, |n| n.is_lowercase())) && cs[i - 1] != '_' { o.push('_') }
			o.extend(c.to_lowercase());
		} else { o.push(*c) }
	}
	o
}
pub fn parameter_types(t: TokenStream) -> TokenStream {
	let i: Input = match syn::parse2(t) { Ok(i) => i, Err(e) => return e.to_compile_error() };
	let b = &i.base;
	let mut out = TokenStream::new();
	for Item { attrs, vis, kind, name, generics, ty, val } in &i.items {
		let attrs: Vec<_> = attrs.iter().filter(|a| !a.path().is_ident("doc")).collect();
		let cfgs: Vec<_> = attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
		let (ig, tg, wc) = generics.split_for_impl();
		let fields: TokenStream = if generics.params.is_empty() { quote!(;) } else {
			let ps = generics.type_params().map(|p| &p.ident);
			quote!((#(::core::marker::PhantomData<#ps>),*);)
		};
		let mut g2 = generics.clone();
		g2.params.push(parse_quote!(__I: From<#ty>));
		let (ig2, _, _) = g2.split_for_impl();
		let body: TokenStream = match kind {
			Kind::Const => quote! {
				#[allow(unused)]
				impl #ig #name #tg #wc { pub const fn get() -> #ty { #val } }
			},
			Kind::Value => quote! {
				#[allow(unused)]
				impl #ig #name #tg #wc { pub fn get() -> #ty { #val } }
			},
			Kind::Storage => {
				let key = format!(":{}:", name);
				quote! {
					#[allow(unused)]
					impl #ig #name #tg #wc {
						pub fn key() -> [u8; 16] { #b::hashing::twox_128(#key.as_bytes()) }
						pub fn get() -> #ty { #b::io::storage::get(&Self::key()).and_then(|v| <#ty as #b::parity_scale_codec::Decode>::decode(&mut &v[..]).ok()).unwrap_or_else(|| #val) }
						pub fn set(v: &#ty) { #b::io::storage::set(&Self::key(), &#b::parity_scale_codec::Encode::encode(v)) }
					}
				}
			},
			Kind::Static => {
				let cell = format_ident!("{}", snake(&name.to_string()).to_uppercase());
				quote! {
					#(#cfgs)* thread_local! { #vis static #cell: ::core::cell::RefCell<#ty> = ::core::cell::RefCell::new(#val); }
					#[allow(unused)]
					impl #name {
						pub fn get() -> #ty { #cell.with(|v| v.borrow().clone()) }
						pub fn set(x: #ty) { #cell.with(|v| *v.borrow_mut() = x) }
						pub fn mutate<R>(f: impl FnOnce(&mut #ty) -> R) -> R { let mut v = Self::get(); let r = f(&mut v); Self::set(v); r }
						pub fn take() -> #ty { let v = Self::get(); Self::set(#val); v }
					}
				}
			},
		};
		out.extend(quote! {
			#(#attrs)* #vis struct #name #generics #fields
			#(#cfgs)* #body
			#(#cfgs)* impl #ig2 #b::core::Get<__I> for #name #tg #wc { fn get() -> __I { <__I as From<#ty>>::from(#name::get()) } }
			#(#cfgs)* impl #ig #b::core::TypedGet for #name #tg #wc { type Type = #ty; fn get() -> #ty { #name::get() } }
		});
		let _ = name.to_token_stream();
	}
	out
}
