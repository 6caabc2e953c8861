use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::*;
pub fn decl(t: TokenStream) -> TokenStream {
	let f: File = syn::parse2(t).expect("traits");
	let mut out = TokenStream::new();
	for it in f.items {
		let Item::Trait(mut tr) = it else { out.extend(quote!(#it)); continue };
		tr.attrs.retain(|a| a.path().is_ident("doc"));
		if !tr.generics.params.iter().any(|p| matches!(p, GenericParam::Type(t) if t.ident == "Block")) {
			tr.generics.params.insert(0, parse_quote!(Block: ::sp_api::BlockT));
		}
		if let Some(wc) = &tr.generics.where_clause { if wc.predicates.is_empty() { tr.generics.where_clause = None } }
		for i in &mut tr.items {
			if let TraitItem::Fn(m) = i {
				m.attrs.retain(|a| a.path().is_ident("doc"));
				let old = std::mem::take(&mut m.sig.inputs);
				m.sig.inputs.push(parse_quote!(&self));
				m.sig.inputs.push(parse_quote!(at: Block::Hash));
				for (n, a) in old.into_iter().enumerate() {
					if let FnArg::Typed(mut p) = a {
						if matches!(*p.pat, Pat::Wild(_)) { let id = format_ident!("arg{}", n); p.pat = parse_quote!(#id); }
						m.sig.inputs.push(FnArg::Typed(p));
					}
				}
				let ret: Type = match &m.sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
				m.sig.output = parse_quote!(-> ::core::result::Result<#ret, ::sp_api::ApiError>);
			}
		}
		out.extend(quote!(#[allow(clippy::too_many_arguments)] #tr));
	}
	out
}
/// The server trait of an RPC interface.
pub fn rpc(t: TokenStream) -> TokenStream {
	let mut tr: ItemTrait = syn::parse2(t).expect("trait");
	tr.ident = format_ident!("{}Server", tr.ident);
	for i in &mut tr.items {
		if let TraitItem::Fn(m) = i {
			m.attrs.retain(|a| a.path().is_ident("doc"));
		}
	}
	quote!(#tr)
}
/// The runtime APIs implemented by the value `RuntimeApiImpl`, which must exist where this is invoked.
pub fn implement(t: TokenStream) -> TokenStream {
	let f: File = syn::parse2(t).expect("impls");
	let mut out = TokenStream::new();
	for it in f.items {
		let Item::Impl(im) = it else { continue };
		let cfgs: Vec<_> = im.attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
		let path = im.trait_.as_ref().unwrap().1.clone();
		let fns = im.items.iter().filter_map(|i| if let ImplItem::Fn(m) = i {
			let mut m = m.clone();
			m.attrs.clear();
			let old = std::mem::take(&mut m.sig.inputs);
			m.sig.inputs.push(parse_quote!(&self));
			m.sig.inputs.push(parse_quote!(_at: <Block as ::sp_api::BlockT>::Hash));
			m.sig.inputs.extend(old);
			let ret: Type = match &m.sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
			m.sig.output = parse_quote!(-> ::core::result::Result<#ret, ::sp_api::ApiError>);
			let body = &m.block;
			m.block = parse_quote!({ let answer = (move || -> #ret #body)(); Ok(answer) });
			Some(m)
		} else { None });
		out.extend(quote! { #(#cfgs)* impl #path for RuntimeApiImpl { #(#fns)* } });
	}
	out
}
