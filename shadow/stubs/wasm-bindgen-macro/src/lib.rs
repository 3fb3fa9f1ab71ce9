use proc_macro::TokenStream;
/// Leaves the item as it is.
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, item: TokenStream) -> TokenStream { item }
