//! URI templates: acceptance, views, variables.
#[cfg(feature = "alloc")]
use alloc::string::{String, ToString};
use core::convert::TryFrom;
use iri_string::template::context::VarName;
use iri_string::template::UriTemplateStr;
#[cfg(feature = "alloc")]
use iri_string::template::UriTemplateString;

pub fn r_new(s: &str) -> Result<&str, ()> { UriTemplateStr::new(s).map(|x| x.as_str()).map_err(|_| ()) }
pub fn r_try_from_str(s: &str) -> Result<&str, ()> { <&UriTemplateStr>::try_from(s).map(|x| x.as_str()).map_err(|_| ()) }
pub fn r_try_from_bytes(s: &[u8]) -> Result<&str, ()> { <&UriTemplateStr>::try_from(s).map(|x| x.as_str()).map_err(|_| ()) }
#[cfg(feature = "alloc")]
pub fn r_owned_try_from_str(s: &str) -> Result<String, ()> { UriTemplateString::try_from(s).map(String::from).map_err(|_| ()) }
#[cfg(feature = "alloc")]
pub fn r_owned_try_from_bytes(s: &[u8]) -> Result<String, ()> { UriTemplateString::try_from(s).map(String::from).map_err(|_| ()) }
#[cfg(feature = "alloc")]
pub fn r_owned_from_str(s: &str) -> Result<String, ()> { s.parse::<UriTemplateString>().map(String::from).map_err(|_| ()) }
#[cfg(feature = "alloc")]
pub fn r_owned_try_from_string(s: &str) -> Result<String, String> { UriTemplateString::try_from(String::from(s)).map(String::from).map_err(|e| e.into_source()) }
pub fn r_varname(s: &str) -> Result<&str, ()> { VarName::new(s).map(|x| x.as_str()).map_err(|_| ()) }
pub fn r_as_str(s: &UriTemplateStr) -> &str { s.as_str() }
pub fn r_as_ref_str(s: &UriTemplateStr) -> &str { AsRef::<str>::as_ref(s) }
pub fn r_into_str(s: &UriTemplateStr) -> &str { <&str>::from(s) }
pub fn r_len(s: &UriTemplateStr) -> bool { s.len() == s.as_str().len() && s.is_empty() == (s.as_str().len() == 0) }
#[cfg(feature = "alloc")]
pub fn r_display(s: &UriTemplateStr) -> String { s.to_string() }
#[cfg(feature = "alloc")]
pub fn r_owned_display(s: &UriTemplateStr) -> String { UriTemplateString::from(s).to_string() }
#[cfg(feature = "alloc")]
pub fn r_owned_views(s: &UriTemplateStr) -> (String, String, String, String) {
    let o = UriTemplateString::from(s);
    (String::from(o.as_slice().as_str()), String::from(AsRef::<str>::as_ref(&o)), String::from(core::borrow::Borrow::<str>::borrow(&o)), String::from(o.clone()))
}
#[cfg(feature = "alloc")]
pub fn r_to_owned(s: &UriTemplateStr) -> String { use alloc::borrow::ToOwned; String::from(s.to_owned()) }
#[cfg(feature = "alloc")]
pub fn r_boxed(s: &UriTemplateStr) -> String { let b: alloc::boxed::Box<UriTemplateStr> = alloc::boxed::Box::from(s); String::from(b.as_str()) }
#[cfg(feature = "alloc")]
pub fn r_owned_into_box(s: &UriTemplateStr) -> String { let b: alloc::boxed::Box<UriTemplateStr> = UriTemplateString::from(s).into(); String::from(b.as_str()) }
#[cfg(feature = "alloc")]
pub fn r_rc(s: &UriTemplateStr) -> String { let b: alloc::rc::Rc<UriTemplateStr> = alloc::rc::Rc::from(s); String::from(b.as_str()) }
#[cfg(feature = "alloc")]
pub fn r_arc(s: &UriTemplateStr) -> String { let b: alloc::sync::Arc<UriTemplateStr> = alloc::sync::Arc::from(s); String::from(b.as_str()) }
#[cfg(feature = "alloc")]
pub fn r_append(s: &UriTemplateStr, t: &UriTemplateStr) -> String { let mut o = UriTemplateString::from(s); o.append(t); String::from(o) }
pub fn r_var_first(s: &UriTemplateStr) -> Option<&str> { s.variables().next().map(|v| v.as_str()) }
pub fn r_var_second(s: &UriTemplateStr) -> Option<&str> { let mut i = s.variables(); let _ = i.next()?; i.next().map(|v| v.as_str()) }
