pub mod console { pub fn log_1(_v: &wasm_bindgen::JsValue) {} pub fn log_2(_v: &wasm_bindgen::JsValue, _w: &wasm_bindgen::JsValue) {} }
