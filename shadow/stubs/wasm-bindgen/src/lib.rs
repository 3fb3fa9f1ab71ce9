//! Stand-in for `wasm-bindgen`: the exported functions stay plain Rust functions.
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub String);
impl JsValue {
    pub const NULL: JsValue = JsValue(String::new());
    pub const UNDEFINED: JsValue = JsValue(String::new());
    pub fn from_str(s: &str) -> JsValue { JsValue(s.to_string()) }
}
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue(s.to_string()) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue(s) } }
impl From<bool> for JsValue { fn from(s: bool) -> Self { JsValue(s.to_string()) } }
#[derive(Clone, Debug, PartialEq)]
pub struct JsError(pub String);
impl JsError { pub fn new(s: &str) -> JsError { JsError(s.to_string()) } }
impl From<JsError> for JsValue { fn from(s: JsError) -> Self { JsValue(s.0) } }
pub mod prelude { pub use crate::{JsError, JsValue}; pub use wasm_bindgen_macro::wasm_bindgen; }
