//! Stand-in for `jsonrpsee`: the handler traits and error values, without any transport.
pub mod proc_macros {
	pub use shim_macros::rpc;
}
pub mod tracing {
	#[macro_export]
	macro_rules! __warn { ($($t:tt)*) => {{ let _ = format!($($t)*); }}; }
	pub use crate::__warn as warn;
}
pub mod core {
	pub use shim_macros::async_trait;
	use crate::types::error::CallError;
	#[derive(Debug)]
	pub enum Error {
		Call(CallError),
		Custom(String),
	}
	impl From<CallError> for Error {
		fn from(e: CallError) -> Self {
			Error::Call(e)
		}
	}
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	impl std::error::Error for Error {}
	pub type RpcResult<T> = Result<T, Error>;
}
pub mod types {
	pub use error::ErrorObject;
	pub type ErrorObjectOwned = ErrorObject<'static>;
	pub mod error {
		#[derive(Debug, Clone, PartialEq)]
		pub struct ErrorObject<'a> {
			pub code: i32,
			pub message: String,
			pub data: Option<serde_json::Value>,
			_l: std::marker::PhantomData<&'a ()>,
		}
		impl ErrorObject<'static> {
			pub fn owned<S: serde::Serialize>(code: i32, message: impl Into<String>, data: Option<S>) -> Self {
				ErrorObject { code, message: message.into(), data: data.and_then(|d| serde_json::to_value(d).ok()), _l: Default::default() }
			}
			pub fn code(&self) -> i32 {
				self.code
			}
		}
		#[derive(Debug)]
		pub enum CallError {
			Custom(ErrorObject<'static>),
			InvalidParams(String),
			Failed(String),
		}
		pub enum ErrorCode {
			ParseError,
			InvalidRequest,
			MethodNotFound,
			InvalidParams,
			InternalError,
			ServerError(i32),
		}
		impl ErrorCode {
			pub fn code(&self) -> i32 {
				match self {
					ErrorCode::ParseError => -32700,
					ErrorCode::InvalidRequest => -32600,
					ErrorCode::MethodNotFound => -32601,
					ErrorCode::InvalidParams => -32602,
					ErrorCode::InternalError => -32603,
					ErrorCode::ServerError(c) => *c,
				}
			}
		}
	}
}
