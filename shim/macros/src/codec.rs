use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::visit_mut::VisitMut;
use syn::*;

/// Contents of all #[codec(..)] attributes.
fn codec_metas(attrs: &[Attribute]) -> Vec<Meta> {
	let mut out = vec![];
	for a in attrs {
		if a.path().is_ident("codec") {
			if let Ok(l) = a.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated) {
				out.extend(l);
			}
		}
	}
	out
}
fn has(attrs: &[Attribute], name: &str) -> bool {
	codec_metas(attrs).iter().any(|m| m.path().is_ident(name))
}
fn index(v: &Variant, i: usize) -> TokenStream {
	for m in codec_metas(&v.attrs) {
		if let Meta::NameValue(n) = &m {
			if n.path.is_ident("index") {
				let e = &n.value;
				return quote!(#e as u8);
			}
		}
	}
	if let Some((_, e)) = &v.discriminant {
		return quote!((#e) as u8);
	}
	let i = i as u8;
	quote!(#i)
}
fn custom_bound(attrs: &[Attribute], name: &str) -> Option<Vec<WherePredicate>> {
	for m in codec_metas(attrs) {
		if let Meta::List(l) = &m {
			if l.path.is_ident(name) {
				let p = l
					.parse_args_with(punctuated::Punctuated::<WherePredicate, Token![,]>::parse_terminated)
					.expect("bound");
				return Some(p.into_iter().collect());
			}
		}
	}
	None
}
struct Mentions<'a> {
	params: &'a [Ident],
	found: bool,
	own: &'a Ident,
	own_found: bool,
}
impl VisitMut for Mentions<'_> {
	fn visit_path_mut(&mut self, p: &mut Path) {
		if let Some(s) = p.segments.first() {
			if self.params.contains(&s.ident) {
				self.found = true;
			}
			if &s.ident == self.own || s.ident == "Self" {
				self.own_found = true;
			}
		}
		visit_mut::visit_path_mut(self, p);
	}
}
pub fn type_params(g: &Generics) -> Vec<Ident> {
	g.type_params().map(|p| p.ident.clone()).collect()
}
fn fields(d: &Data) -> Vec<Field> {
	match d {
		Data::Struct(s) => s.fields.iter().cloned().collect(),
		Data::Enum(e) => e.variants.iter().filter(|v| !has(&v.attrs, "skip")).flat_map(|v| v.fields.iter().cloned()).collect(),
		_ => panic!("union"),
	}
}
fn bounds(input: &DeriveInput, tr: &TokenStream, compact: &TokenStream, own: Option<Vec<WherePredicate>>, skip_bound: Option<TokenStream>) -> Generics {
	let mut g = input.generics.clone();
	let params = type_params(&g);
	let w = g.make_where_clause();
	if let Some(b) = own {
		w.predicates.extend(b);
		return g;
	}
	for f in fields(&input.data) {
		let mut t = f.ty.clone();
		let mut m = Mentions { params: &params, found: false, own: &input.ident, own_found: false };
		m.visit_type_mut(&mut t);
		if !m.found || m.own_found {
			continue;
		}
		if has(&f.attrs, "skip") {
			if let Some(b) = &skip_bound {
				w.predicates.push(parse_quote!(#t: #b));
			}
			continue;
		}
		if has(&f.attrs, "compact") {
			w.predicates.push(parse_quote!(#t: #compact));
		} else {
			w.predicates.push(parse_quote!(#t: #tr));
		}
	}
	g
}

fn encode_fields(fs: &Fields, names: &[TokenStream]) -> TokenStream {
	let mut out = quote!();
	for (f, n) in fs.iter().zip(names) {
		if has(&f.attrs, "skip") {
			out.extend(quote!(let _ = &#n;));
			continue;
		}
		let t = &f.ty;
		if has(&f.attrs, "compact") {
			out.extend(quote!(
				::parity_scale_codec::Encode::encode_to(
					&<<<#t as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::EncodeAsRef<'_, #t>>::RefType as ::core::convert::From<&'_ #t>>::from(#n),
					__codec_dest);
			));
		} else {
			out.extend(quote!(::parity_scale_codec::Encode::encode_to(#n, __codec_dest);));
		}
	}
	out
}
fn decode_fields(path: TokenStream, fs: &Fields) -> TokenStream {
	let one = |f: &Field| {
		let t = &f.ty;
		if has(&f.attrs, "skip") {
			quote!(::core::default::Default::default())
		} else if has(&f.attrs, "compact") {
			quote!(<<#t as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::Decode>::decode(__codec_input)?.into())
		} else {
			quote!(<#t as ::parity_scale_codec::Decode>::decode(__codec_input)?)
		}
	};
	match fs {
		Fields::Named(n) => {
			let p = n.named.iter().map(|f| {
				let (i, v) = (&f.ident, one(f));
				quote!(#i: #v)
			});
			quote!(#path { #(#p),* })
		},
		Fields::Unnamed(n) => {
			let p = n.unnamed.iter().map(one);
			quote!(#path ( #(#p),* ))
		},
		Fields::Unit => quote!(#path),
	}
}
/// (pattern, names bound by it)
pub fn pattern(fs: &Fields, prefix: &str) -> (TokenStream, Vec<TokenStream>) {
	match fs {
		Fields::Named(n) => {
			let mut names = vec![];
			let p: Vec<_> = n
				.named
				.iter()
				.map(|f| {
					let i = f.ident.as_ref().unwrap();
					let s = i.to_string();
					let v = format_ident!("{}{}", prefix, s.trim_start_matches("r#"));
					names.push(quote!(#v));
					quote!(#i: #v)
				})
				.collect();
			(quote!({ #(#p),* }), names)
		},
		Fields::Unnamed(n) => {
			let v: Vec<_> = (0..n.unnamed.len()).map(|i| format_ident!("{}{}", prefix, i)).collect();
			(quote!(( #(#v),* )), v.iter().map(|v| quote!(#v)).collect())
		},
		Fields::Unit => (quote!(), vec![]),
	}
}

pub fn encode(input: DeriveInput) -> TokenStream {
	let g = bounds(
		&input,
		&quote!(::parity_scale_codec::Encode),
		&quote!(::parity_scale_codec::HasCompact),
		custom_bound(&input.attrs, "encode_bound"),
		None,
	);
	let (ig, _, w) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	let body = match &input.data {
		Data::Struct(s) => {
			let (p, n) = pattern(&s.fields, "__f_");
			let e = encode_fields(&s.fields, &n);
			quote!(let Self #p = self; #e)
		},
		Data::Enum(e) => {
			let arms: Vec<_> = e
				.variants
				.iter()
				.enumerate()
				.map(|(i, v)| {
					let vi = &v.ident;
					if has(&v.attrs, "skip") {
						return quote!(Self::#vi { .. } => (),);
					}
					let (p, n) = pattern(&v.fields, "__f_");
					let e = encode_fields(&v.fields, &n);
					let ix = index(v, i);
					quote!(Self::#vi #p => { __codec_dest.push_byte(#ix); #e })
				})
				.collect();
			quote!(match self { #(#arms)* _ => (), })
		},
		_ => panic!(),
	};
	quote! {
		#[allow(deprecated, unused_variables, unreachable_patterns, unreachable_code, non_snake_case, clippy::all)]
		const _: () = {
			impl #ig ::parity_scale_codec::Encode for #name #tg #w {
				fn encode_to<__CodecOut: ::parity_scale_codec::Output + ?::core::marker::Sized>(&self, __codec_dest: &mut __CodecOut) {
					#body
				}
			}
			impl #ig ::parity_scale_codec::EncodeLike for #name #tg #w {}
		};
	}
}
pub fn decode(input: DeriveInput) -> TokenStream {
	let g = bounds(
		&input,
		&quote!(::parity_scale_codec::Decode),
		&quote!(::parity_scale_codec::HasCompact),
		custom_bound(&input.attrs, "decode_bound"),
		Some(quote!(::core::default::Default)),
	);
	let (ig, _, w) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	let body = match &input.data {
		Data::Struct(s) => {
			let d = decode_fields(quote!(Self), &s.fields);
			quote!(::core::result::Result::Ok(#d))
		},
		Data::Enum(e) => {
			let arms: Vec<_> = e
				.variants
				.iter()
				.enumerate()
				.filter(|(_, v)| !has(&v.attrs, "skip"))
				.map(|(i, v)| {
					let vi = &v.ident;
					let ix = index(v, i);
					let d = decode_fields(quote!(Self::#vi), &v.fields);
					quote!(__x if __x == (#ix) => ::core::result::Result::Ok(#d),)
				})
				.collect();
			let msg = format!("Could not decode `{name}`, variant doesn't exist");
			quote!(match __codec_input.read_byte()? { #(#arms)* _ => ::core::result::Result::Err(#msg.into()) })
		},
		_ => panic!(),
	};
	quote! {
		#[allow(deprecated, unused_variables, unreachable_patterns, unreachable_code, clippy::all)]
		const _: () = {
			impl #ig ::parity_scale_codec::Decode for #name #tg #w {
				fn decode<__CodecIn: ::parity_scale_codec::Input>(__codec_input: &mut __CodecIn) -> ::core::result::Result<Self, ::parity_scale_codec::Error> {
					#body
				}
			}
		};
	}
}
pub fn max_encoded_len(input: DeriveInput) -> TokenStream {
	let g = bounds(
		&input,
		&quote!(::parity_scale_codec::MaxEncodedLen),
		&quote!(::parity_scale_codec::HasCompact),
		custom_bound(&input.attrs, "mel_bound"),
		None,
	);
	let mut g = g;
	for f in fields(&input.data) {
		let t = &f.ty;
		let mut u = t.clone();
		let ps = type_params(&input.generics);
		let mut m = Mentions { params: &ps, found: false, own: &input.ident, own_found: false };
		m.visit_type_mut(&mut u);
		if m.found && has(&f.attrs, "compact") {
			g.make_where_clause().predicates.push(parse_quote!(<#t as ::parity_scale_codec::HasCompact>::Type: ::parity_scale_codec::MaxEncodedLen));
		}
	}
	// what MaxEncodedLen: Encode needs
	let eg = bounds(&input, &quote!(::parity_scale_codec::Encode), &quote!(::parity_scale_codec::HasCompact), None, None);
	if let Some(w) = eg.where_clause {
		g.make_where_clause().predicates.extend(w.predicates);
	}
	let (ig, _, w) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	let sum = |fs: &Fields| {
		let p = fs.iter().filter(|f| !has(&f.attrs, "skip")).map(|f| {
			let t = &f.ty;
			if has(&f.attrs, "compact") {
				quote!(.saturating_add(<<#t as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::MaxEncodedLen>::max_encoded_len()))
			} else {
				quote!(.saturating_add(<#t as ::parity_scale_codec::MaxEncodedLen>::max_encoded_len()))
			}
		});
		quote!(0usize #(#p)*)
	};
	let body = match &input.data {
		Data::Struct(s) => sum(&s.fields),
		Data::Enum(e) => {
			let p = e.variants.iter().filter(|v| !has(&v.attrs, "skip")).map(|v| {
				let s = sum(&v.fields);
				quote!(.max(#s))
			});
			quote!(0usize #(#p)* .saturating_add(1))
		},
		_ => panic!(),
	};
	quote! {
		const _: () = {
			impl #ig ::parity_scale_codec::MaxEncodedLen for #name #tg #w {
				fn max_encoded_len() -> usize { #body }
			}
		};
	}
}
pub fn compact_as(input: DeriveInput) -> TokenStream {
	let (ig, tg, w) = input.generics.split_for_impl();
	let name = &input.ident;
	let Data::Struct(s) = &input.data else { panic!() };
	let f = s.fields.iter().next().unwrap();
	let t = &f.ty;
	let (acc, mk) = match &f.ident {
		Some(i) => (quote!(self.#i), quote!(#name { #i: x })),
		None => (quote!(self.0), quote!(#name(x))),
	};
	quote! {
		const _: () = {
			impl #ig ::parity_scale_codec::CompactAs for #name #tg #w {
				type As = #t;
				fn encode_as(&self) -> &#t { &#acc }
				fn decode_from(x: #t) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { Ok(#mk) }
			}
			impl #ig ::core::convert::From<::parity_scale_codec::Compact<#name #tg>> for #name #tg #w {
				fn from(x: ::parity_scale_codec::Compact<#name #tg>) -> Self { x.0 }
			}
		};
	}
}
pub fn type_info(input: DeriveInput) -> TokenStream {
	let mut g = input.generics.clone();
	for p in g.type_params_mut() { p.bounds.push(parse_quote!('static)) }
	let (ig, tg, w) = g.split_for_impl();
	let name = &input.ident;
	quote! {
		const _: () = {
			impl #ig ::scale_info::TypeInfo for #name #tg #w {
				type Identity = Self;
				fn type_info() -> ::scale_info::Type { ::scale_info::Type::default() }
			}
		};
	}
}

// ------------------------------------------------------------------ std-like derives without bounds
fn each(input: &DeriveInput) -> Vec<(TokenStream, String, Fields)> {
	match &input.data {
		Data::Struct(s) => vec![(quote!(Self), input.ident.to_string(), s.fields.clone())],
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let i = &v.ident;
				(quote!(Self::#i), i.to_string(), v.fields.clone())
			})
			.collect(),
		_ => panic!(),
	}
}
pub fn clone_nb(input: DeriveInput) -> TokenStream {
	let (ig, tg, w) = input.generics.split_for_impl();
	let name = &input.ident;
	let arms = each(&input).into_iter().map(|(p, _, f)| {
		let (pat, n) = pattern(&f, "__f_");
		let mk = match &f {
			Fields::Named(x) => {
				let i = x.named.iter().map(|f| &f.ident);
				quote!({ #(#i: ::core::clone::Clone::clone(#n)),* })
			},
			Fields::Unnamed(_) => quote!(( #(::core::clone::Clone::clone(#n)),* )),
			Fields::Unit => quote!(),
		};
		quote!(#p #pat => #p #mk,)
	});
	quote!(const _: () = { #[allow(deprecated)] impl #ig ::core::clone::Clone for #name #tg #w { fn clone(&self) -> Self { match self { #(#arms)* } } } };)
}
pub fn eq_nb(input: DeriveInput) -> TokenStream {
	let (ig, tg, w) = input.generics.split_for_impl();
	let name = &input.ident;
	quote!(const _: () = { #[allow(deprecated)] impl #ig ::core::cmp::Eq for #name #tg #w {} };)
}
pub fn partial_eq_nb(input: DeriveInput) -> TokenStream {
	let (ig, tg, w) = input.generics.split_for_impl();
	let name = &input.ident;
	let arms = each(&input).into_iter().map(|(p, _, f)| {
		let (pa, na) = pattern(&f, "__a_");
		let (pb, nb) = pattern(&f, "__b_");
		quote!((#p #pa, #p #pb) => true #(&& #na == #nb)*,)
	});
	quote!(const _: () = { #[allow(deprecated, unreachable_patterns)] impl #ig ::core::cmp::PartialEq for #name #tg #w { fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms)* _ => false } } } };)
}
pub fn debug(input: DeriveInput, bound: bool) -> TokenStream {
	let mut g = input.generics.clone();
	if bound {
		for p in type_params(&input.generics) {
			g.make_where_clause().predicates.push(parse_quote!(#p: ::core::fmt::Debug));
		}
	}
	let (ig, _, w) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	let arms = each(&input).into_iter().map(|(p, s, f)| {
		let (pat, n) = pattern(&f, "__f_");
		match &f {
			Fields::Named(x) => {
				let i = x.named.iter().map(|f| f.ident.as_ref().unwrap().to_string());
				quote!(#p #pat => fmt.debug_struct(#s) #(.field(#i, #n))* .finish(),)
			},
			Fields::Unnamed(_) => quote!(#p #pat => fmt.debug_tuple(#s) #(.field(#n))* .finish(),),
			Fields::Unit => quote!(#p => fmt.write_str(#s),),
		}
	});
	quote!(const _: () = { #[allow(deprecated)] impl #ig ::core::fmt::Debug for #name #tg #w { fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { match self { #(#arms)* _ => Ok(()) } } } };)
		.into_iter()
		.collect()
}
pub fn default_nb(input: DeriveInput) -> TokenStream {
	let (ig, tg, w) = input.generics.split_for_impl();
	let name = &input.ident;
	let mk = |p: TokenStream, f: &Fields| match f {
		Fields::Named(x) => {
			let i = x.named.iter().map(|f| &f.ident);
			quote!(#p { #(#i: ::core::default::Default::default()),* })
		},
		Fields::Unnamed(x) => {
			let d = x.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
			quote!(#p ( #(#d),* ))
		},
		Fields::Unit => p,
	};
	let body = match &input.data {
		Data::Struct(s) => mk(quote!(Self), &s.fields),
		Data::Enum(e) => {
			let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).expect("default");
			let i = &v.ident;
			mk(quote!(Self::#i), &v.fields)
		},
		_ => panic!(),
	};
	quote!(const _: () = { impl #ig ::core::default::Default for #name #tg #w { fn default() -> Self { #body } } };)
}
