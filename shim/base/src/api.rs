//! sp-api: runtime APIs are plain traits here.
pub use shim_macros::{decl_runtime_apis, impl_runtime_apis};
pub use crate::runtime::traits::Block as BlockT;
#[derive(Debug)]
pub enum ApiError { FailedToDecodeReturnValue, Application(Box<dyn std::error::Error + Send + Sync>), StateBackendIsNotTrie }
impl std::fmt::Display for ApiError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for ApiError {}
pub struct ApiRef<'a, T>(pub T, pub std::marker::PhantomData<&'a ()>);
impl<'a, T> From<T> for ApiRef<'a, T> { fn from(t: T) -> Self { ApiRef(t, Default::default()) } }
impl<'a, T> std::ops::Deref for ApiRef<'a, T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
impl<'a, T> std::ops::DerefMut for ApiRef<'a, T> { fn deref_mut(&mut self) -> &mut T { &mut self.0 } }
pub trait ProvideRuntimeApi<B: BlockT> { type Api; fn runtime_api(&self) -> ApiRef<'_, Self::Api>; }
pub trait Core<B: BlockT> {}
