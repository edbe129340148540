//! A JavaScript value as the part of it that crosses the boundary here: JSON, or undefined.
//! `from_serde` and `into_serde` are what the real crate does (through JSON text), natively.
pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{wasm_bindgen, JsValue};
}

#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(Option<String>);

impl JsValue {
    pub const NULL: JsValue = JsValue(None);
    pub const UNDEFINED: JsValue = JsValue(None);

    pub fn null() -> JsValue {
        JsValue(None)
    }

    pub fn undefined() -> JsValue {
        JsValue(None)
    }

    pub fn is_null(&self) -> bool {
        self.0.is_none()
    }

    pub fn is_undefined(&self) -> bool {
        self.0.is_none()
    }

    pub fn from_str(s: &str) -> JsValue {
        JsValue(Some(serde_json::to_string(s).unwrap()))
    }

    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Some(b.to_string()))
    }

    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Some(n.to_string()))
    }

    /// The value as JSON text.
    pub fn json(&self) -> Option<&str> {
        self.0.as_deref()
    }

    pub fn as_string(&self) -> Option<String> {
        self.0.as_deref().and_then(|t| serde_json::from_str(t).ok())
    }

    pub fn from_serde<T: serde::ser::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        Ok(JsValue(Some(serde_json::to_string(t)?)))
    }

    pub fn into_serde<T: for<'a> serde::de::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        serde_json::from_str(self.0.as_deref().unwrap_or("null"))
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}

impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}

impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::from_bool(b)
    }
}
