use crate::params::snake;
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::*;

struct P { cfgs: Vec<Attribute>, name: Ident, path: Path, inst: Option<Ident>, parts: Vec<(String, bool)>, idx: Option<u8> }
struct R { vis: Visibility, name: Ident, pallets: Vec<P> }
struct Part(String, bool);
impl Parse for Part {
	fn parse(i: ParseStream) -> Result<Self> {
		let n: Ident = i.parse()?;
		let g: Generics = i.parse()?;
		Ok(Part(n.to_string(), !g.params.is_empty()))
	}
}
impl Parse for P {
	fn parse(i: ParseStream) -> Result<Self> {
		let attrs = i.call(Attribute::parse_outer)?;
		let name = i.parse()?;
		i.parse::<Token![:]>()?;
		let mut path = Path { leading_colon: i.parse()?, segments: Default::default() };
		let (mut inst, mut parts) = (None, None);
		loop {
			if i.peek(token::Brace) {
				let c;
				braced!(c in i);
				parts = Some(c.parse_terminated(Part::parse, Token![,])?.into_iter().map(|p| (p.0, p.1)).collect());
				break
			}
			if i.peek(Token![<]) { i.parse::<Token![<]>()?; inst = Some(i.parse()?); i.parse::<Token![>]>()?; }
			else if i.peek(Ident) || i.peek(Token![crate]) || i.peek(Token![super]) || i.peek(Token![self]) { path.segments.push(Ident::parse_any_shim(i)?.into()); }
			if i.peek(Token![::]) { i.parse::<Token![::]>()?; } else { break }
		}
		let parts = parts.unwrap_or_else(|| vec![("Pallet".into(), false), ("Call".into(), false), ("Storage".into(), false), ("Event".into(), true)]);
		let idx = if i.parse::<Option<Token![=]>>()?.is_some() { Some(i.parse::<LitInt>()?.base10_parse()?) } else { None };
		Ok(P { cfgs: attrs.into_iter().filter(|a| a.path().is_ident("cfg")).collect(), name, path, inst, parts, idx })
	}
}
trait AnyIdent: Sized { fn parse_any_shim(i: ParseStream) -> Result<Self>; }
impl AnyIdent for Ident { fn parse_any_shim(i: ParseStream) -> Result<Ident> { use syn::ext::IdentExt; Ident::parse_any(i) } }
impl Parse for R {
	fn parse(i: ParseStream) -> Result<Self> {
		let _ = i.call(Attribute::parse_outer)?;
		let vis = i.parse()?;
		if i.peek(Token![enum]) { i.parse::<Token![enum]>()?; } else { i.parse::<Token![struct]>()?; }
		let name = i.parse()?;
		while !i.peek(token::Brace) { i.parse::<proc_macro2::TokenTree>()?; }
		let c;
		braced!(c in i);
		Ok(R { vis, name, pallets: c.parse_terminated(P::parse, Token![,])?.into_iter().collect() })
	}
}
impl P {
	fn part(&self, n: &str) -> Option<bool> { self.parts.iter().find(|p| p.0 == n).map(|p| p.1) }
	fn args(&self, rt: &Ident) -> TokenStream { let p = &self.path; match &self.inst { Some(i) => quote!(#rt, #p::#i), None => quote!(#rt) } }
}
pub fn construct(t: TokenStream) -> TokenStream {
	let r: R = match parse2(t) { Ok(r) => r, Err(e) => return e.to_compile_error() };
	let rt = &r.name;
	let vis = &r.vis;
	let mut next = 0u8;
	let idx: Vec<u8> = r.pallets.iter().map(|p| { let i = p.idx.unwrap_or(next); next = i.wrapping_add(1); i }).collect();
	let mut out = quote! {
		#[derive(Clone, Copy, PartialEq, Eq, ::frame_support::__private::RuntimeDebug, ::frame_support::__private::TypeInfo)]
		#vis struct #rt;
		impl ::frame_support::__private::GetRuntimeBlockType for #rt { type RuntimeBlock = <#rt as ::frame_system::Config>::Block; }
	};
	let h = quote!(::frame_support::__private);
	let codec = quote!(#h::Encode, #h::Decode, #h::TypeInfo);
	let (mut aliases, mut all, mut without) = (vec![], vec![], vec![]);
	let (mut ev, mut evx, mut call, mut callx, mut org, mut orgx, mut gen_, mut genb) = (vec![], vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
	let (mut info_i, mut info_n, mut unsigned, mut unsigned_pre) = (vec![], vec![], vec![], vec![]);
	let mut reasons: Vec<(&str, Vec<TokenStream>, Vec<TokenStream>, Vec<TokenStream>)> = vec![("FreezeReason", vec![], vec![], vec![]), ("HoldReason", vec![], vec![], vec![]), ("SlashReason", vec![], vec![], vec![]), ("LockId", vec![], vec![], vec![])];
	let (mut calls_info, mut calls_disp, mut calls_name, mut calls_meta) = (vec![], vec![], vec![], vec![]);
	for (p, &i) in r.pallets.iter().zip(&idx) {
		let (n, path, a, c) = (&p.name, &p.path, p.args(rt), &p.cfgs);
		let ns = n.to_string();
		aliases.push(quote!(#(#c)* #[allow(unused)] pub type #n = #path::Pallet<#a>;));
		all.push(quote!(#n));
		if ns != "System" { without.push(quote!(#n)) }
		let iu = i as usize;
		info_i.push(quote!(#(#c)* if t == ::core::any::TypeId::of::<#n>() { return Some(#iu) }));
		info_n.push(quote!(#(#c)* if t == ::core::any::TypeId::of::<#n>() { return Some(#ns) }));
		if let Some(g) = p.part("Event") {
			let ty = if g || p.inst.is_some() { quote!(#path::Event<#a>) } else { quote!(#path::Event) };
			ev.push(quote!(#(#c)* #[codec(index = #i)] #n(#ty),));
			evx.push(quote! {
				#(#c)* impl From<#ty> for RuntimeEvent { fn from(x: #ty) -> Self { RuntimeEvent::#n(x) } }
				#(#c)* impl TryInto<#ty> for RuntimeEvent { type Error = (); fn try_into(self) -> ::core::result::Result<#ty, ()> { match self { Self::#n(x) => Ok(x), #[allow(unreachable_patterns)] _ => Err(()) } } }
			});
		}
		if p.part("Call").is_some() {
			let pal = quote!(#path::Pallet<#a>);
			let ty = quote!(#h::CallableCallFor<#pal, #rt>);
			call.push(quote!(#(#c)* #[codec(index = #i)] #n(#ty),));
			callx.push(quote! {
				#(#c)* impl From<#ty> for RuntimeCall { fn from(x: #ty) -> Self { RuntimeCall::#n(x) } }
				#(#c)* impl ::frame_support::traits::IsSubType<#ty> for RuntimeCall { #[allow(unreachable_patterns)] fn is_sub_type(&self) -> Option<&#ty> { match self { Self::#n(x) => Some(x), _ => None } } }
			});
			calls_info.push(quote!(#(#c)* RuntimeCall::#n(x) => ::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(x),));
			calls_disp.push(quote!(#(#c)* RuntimeCall::#n(x) => ::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(x, origin),));
			calls_name.push(quote!(#(#c)* RuntimeCall::#n(x) => ::frame_support::dispatch::GetCallName::get_call_name(x),));
			calls_meta.push(quote!(#(#c)* RuntimeCall::#n(x) => ::frame_support::dispatch::CallMetadata { function_name: ::frame_support::dispatch::GetCallName::get_call_name(x), pallet_name: #ns },));
		}
		if let Some(g) = p.part("Origin") {
			let ty = if g || p.inst.is_some() { quote!(#path::Origin<#a>) } else { quote!(#path::Origin) };
			org.push(quote!(#(#c)* #[codec(index = #i)] #n(#ty),));
			orgx.push(quote! {
				#(#c)* impl From<#ty> for OriginCaller { fn from(x: #ty) -> Self { OriginCaller::#n(x) } }
				#(#c)* impl TryFrom<OriginCaller> for #ty { type Error = OriginCaller; fn try_from(x: OriginCaller) -> ::core::result::Result<#ty, OriginCaller> { if let OriginCaller::#n(l) = x { Ok(l) } else { Err(x) } } }
				#(#c)* impl From<#ty> for RuntimeOrigin { fn from(x: #ty) -> Self { let x: OriginCaller = x.into(); x.into() } }
				#(#c)* impl From<RuntimeOrigin> for ::core::result::Result<#ty, RuntimeOrigin> { fn from(val: RuntimeOrigin) -> Self { if let OriginCaller::#n(l) = val.caller { Ok(l) } else { Err(val) } } }
			});
		}
		if let Some(g) = p.part("Config") {
			let f = format_ident!("{}", snake(&ns));
			let ty = if g || p.inst.is_some() { quote!(#path::GenesisConfig<#a>) } else { quote!(#path::GenesisConfig) };
			gen_.push(quote!(#(#c)* pub #f: #ty,));
			genb.push(quote!(#(#c)* ::frame_support::traits::BuildGenesisConfig::build(&self.#f);));
		}
		if p.part("ValidateUnsigned").is_some() {
			unsigned.push(quote!(#(#c)* RuntimeCall::#n(x) => <#n as #h::ValidateUnsigned>::validate_unsigned(source, x),));
			unsigned_pre.push(quote!(#(#c)* RuntimeCall::#n(x) => <#n as #h::ValidateUnsigned>::pre_dispatch(x),));
		}
		for (part, vs, fs, cs) in reasons.iter_mut() {
			if p.part(part).is_some() {
				let (pt, en) = (format_ident!("{}", part), format_ident!("Runtime{}", part));
				vs.push(quote!(#(#c)* #[codec(index = #i)] #n(#path::#pt),));
				fs.push(quote!(#(#c)* impl From<#path::#pt> for #en { fn from(x: #path::#pt) -> Self { #en::#n(x) } }));
				cs.push(quote!(+ <#path::#pt as ::frame_support::traits::VariantCount>::VARIANT_COUNT));
			}
		}
	}
	for (part, vs, fs, cs) in &reasons {
		let en = format_ident!("Runtime{}", part);
		let body = if vs.is_empty() { quote!() } else { quote!(#(#vs)*) };
		let derives = if vs.is_empty() { quote!(#[derive(Copy, Clone, Eq, PartialEq, Debug, #h::Encode, #h::Decode, #h::TypeInfo)]) } else { quote!(#[derive(Copy, Clone, Eq, PartialEq, Debug, #h::Encode, #h::Decode, #h::TypeInfo)]) };
		let mel = if vs.is_empty() { quote!(impl #h::MaxEncodedLen for #en { fn max_encoded_len() -> usize { 0 } }) } else { quote!(impl #h::MaxEncodedLen for #en { fn max_encoded_len() -> usize { 2 } }) };
		out.extend(quote! { #derives pub enum #en { #body } #mel #(#fs)* impl ::frame_support::traits::VariantCount for #en { const VARIANT_COUNT: u32 = 0 #(#cs)*; } });
	}
	let unsigned_body = if unsigned.is_empty() { quote!() } else { quote!(#(#unsigned)*) };
	let unsigned_pre_body = if unsigned_pre.is_empty() { quote!() } else { quote!(#(#unsigned_pre)*) };
	out.extend(quote! {
		#(#aliases)*
		pub type AllPalletsWithSystem = (#(#all,)*);
		pub type AllPalletsWithoutSystem = (#(#without,)*);
		pub type AllPallets = AllPalletsWithSystem;
		pub struct PalletInfo;
		impl ::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> { let t = ::core::any::TypeId::of::<P>(); #(#info_i)* None }
			fn name<P: 'static>() -> Option<&'static str> { let t = ::core::any::TypeId::of::<P>(); #(#info_n)* None }
		}
		#[derive(Clone, PartialEq, Eq, #codec, Debug)]
		#[allow(non_camel_case_types)]
		pub enum RuntimeEvent { #(#ev)* }
		#(#evx)*
		#[derive(Clone, PartialEq, Eq, #codec, Debug)]
		pub enum RuntimeTask {}
		#[derive(Clone, PartialEq, Eq, #codec, Debug)]
		#[allow(non_camel_case_types)]
		pub enum RuntimeCall { #(#call)* }
		#(#callx)*
		impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall { fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { #(#calls_info)* } } }
		impl ::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo { match self { #(#calls_disp)* } }
		}
		impl ::frame_support::dispatch::GetCallName for RuntimeCall { fn get_call_name(&self) -> &'static str { match self { #(#calls_name)* } } fn get_call_names() -> &'static [&'static str] { &[] } }
		impl ::frame_support::dispatch::GetCallMetadata for RuntimeCall { fn get_call_metadata(&self) -> ::frame_support::dispatch::CallMetadata { match self { #(#calls_meta)* } } }
		impl #h::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				if !::frame_support::traits::OriginTrait::filter_call(&origin, &self) {
					return Err(::frame_system::Error::<#rt>::CallFiltered.into())
				}
				::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}
		#[derive(Clone, PartialEq, Eq, #codec, #h::MaxEncodedLen, Debug)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller { #[codec(index = 0)] system(::frame_system::Origin<#rt>), #(#org)* #[codec(skip)] #[allow(dead_code)] Void(#h::Void) }
		#[derive(Clone)]
		pub struct RuntimeOrigin { caller: OriginCaller, filter: ::std::rc::Rc<dyn Fn(&RuntimeCall) -> bool> }
		impl ::core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.debug_struct("Origin").field("caller", &self.caller).finish() } }
		impl ::frame_support::traits::CallerTrait<<#rt as ::frame_system::Config>::AccountId> for OriginCaller {
			fn into_system(self) -> Option<::frame_support::__private::RawOrigin<<#rt as ::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), #[allow(unreachable_patterns)] _ => None } }
			fn as_system_ref(&self) -> Option<&::frame_support::__private::RawOrigin<<#rt as ::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), #[allow(unreachable_patterns)] _ => None } }
		}
		impl ::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = <#rt as ::frame_system::Config>::AccountId;
			fn add_filter(&mut self, filter: impl Fn(&RuntimeCall) -> bool + 'static) { let f = self.filter.clone(); self.filter = ::std::rc::Rc::new(move |c| f(c) && filter(c)); }
			fn reset_filter(&mut self) { self.filter = ::std::rc::Rc::new(<<#rt as ::frame_system::Config>::BaseCallFilter as ::frame_support::traits::Contains<RuntimeCall>>::contains); }
			fn set_caller_from(&mut self, o: impl Into<Self>) { self.caller = o.into().caller }
			fn set_caller(&mut self, c: OriginCaller) { self.caller = c }
			fn filter_call(&self, c: &RuntimeCall) -> bool { match self.caller { OriginCaller::system(::frame_system::Origin::<#rt>::Root) => true, _ => (self.filter)(c) } }
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn try_with_caller<R>(mut self, f: impl FnOnce(OriginCaller) -> ::core::result::Result<R, OriginCaller>) -> ::core::result::Result<R, Self> { match f(self.caller) { Ok(r) => Ok(r), Err(c) => { self.caller = c; Err(self) } } }
			fn none() -> Self { ::frame_system::RawOrigin::None.into() }
			fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
			fn signed(w: Self::AccountId) -> Self { ::frame_system::RawOrigin::Signed(w).into() }
		}
		#[allow(unused)]
		impl RuntimeOrigin {
			pub fn none() -> Self { ::frame_system::RawOrigin::None.into() }
			pub fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
			pub fn signed(w: <#rt as ::frame_system::Config>::AccountId) -> Self { ::frame_system::RawOrigin::Signed(w).into() }
		}
		impl From<::frame_system::Origin<#rt>> for OriginCaller { fn from(x: ::frame_system::Origin<#rt>) -> Self { OriginCaller::system(x) } }
		impl TryFrom<OriginCaller> for ::frame_system::Origin<#rt> { type Error = OriginCaller; fn try_from(x: OriginCaller) -> ::core::result::Result<Self, OriginCaller> { if let OriginCaller::system(l) = x { Ok(l) } else { Err(x) } } }
		impl From<OriginCaller> for RuntimeOrigin { fn from(caller: OriginCaller) -> Self { let mut o = RuntimeOrigin { caller, filter: ::std::rc::Rc::new(|_| true) }; ::frame_support::traits::OriginTrait::reset_filter(&mut o); o } }
		impl From<::frame_system::Origin<#rt>> for RuntimeOrigin { fn from(x: ::frame_system::Origin<#rt>) -> Self { let o: OriginCaller = x.into(); o.into() } }
		impl From<Option<<#rt as ::frame_system::Config>::AccountId>> for RuntimeOrigin { fn from(x: Option<<#rt as ::frame_system::Config>::AccountId>) -> Self { <::frame_system::Origin<#rt>>::from(x).into() } }
		impl From<RuntimeOrigin> for ::core::result::Result<::frame_system::Origin<#rt>, RuntimeOrigin> { fn from(val: RuntimeOrigin) -> Self { if let OriginCaller::system(l) = val.caller { Ok(l) } else { Err(val) } } }
		#(#orgx)*
		#[derive(Default)]
		pub struct RuntimeGenesisConfig { #(#gen_)* }
		impl #h::BuildStorage for RuntimeGenesisConfig {
			fn assimilate_storage(&self, s: &mut #h::Storage) -> ::core::result::Result<(), ::std::string::String> {
				#h::BasicExternalities::execute_with_storage(s, || { #(#genb)* Ok(()) })
			}
		}
		impl #h::ValidateUnsigned for #rt {
			type Call = RuntimeCall;
			fn validate_unsigned(source: #h::TransactionSource, call: &RuntimeCall) -> #h::TransactionValidity {
				#[allow(unreachable_patterns)]
				match call { #unsigned_body _ => { let _ = source; #h::UnknownTransaction::NoUnsignedValidator.into() } }
			}
			fn pre_dispatch(call: &RuntimeCall) -> ::core::result::Result<(), #h::TransactionValidityError> {
				#[allow(unreachable_patterns)]
				match call { #unsigned_pre_body _ => Err(#h::UnknownTransaction::NoUnsignedValidator.into()) }
			}
		}
	});
	out
}
