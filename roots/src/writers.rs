//! Writers to caller-supplied buffers.
#[cfg(feature = "alloc")]
use alloc::string::String;
use iri_string::types::*;
use iri_string::format::write_to_slice;
#[cfg(feature = "alloc")]
use iri_string::format::{try_append_to_string, ToStringFallible, ToDedicatedString};

pub mod wr {
    use super::*;
    pub fn r_slice_fits(s: &UriReferenceStr) -> bool { let mut b = [0u8; 4]; write_to_slice(&mut b, &s).is_ok() }
    #[cfg(feature = "alloc")] pub fn r_slice_text(s: &UriReferenceStr) -> Option<String> { let mut b = [0u8; 4]; write_to_slice(&mut b, &s).ok().map(String::from) }
    #[cfg(feature = "alloc")] pub fn r_slice_mask_text(s: &UriReferenceStr) -> Option<String> { let mut b = [0u8; 4]; write_to_slice(&mut b, &s.mask_password()).ok().map(String::from) }
    pub fn r_slice_mask_fits(s: &UriReferenceStr) -> bool { let mut b = [0u8; 4]; write_to_slice(&mut b, &s.mask_password()).is_ok() }
    #[cfg(feature = "alloc")] pub fn r_append(s: &UriReferenceStr) -> Option<String> { let mut b = String::from("x"); match try_append_to_string(&mut b, &s) { Ok(()) => Some(b), Err(_) => None } }
    #[cfg(feature = "alloc")] pub fn r_try_to_string(s: &UriReferenceStr) -> Option<String> { (&s).try_to_string().ok() }
    #[cfg(feature = "alloc")] pub fn r_try_dedicated(s: &UriReferenceStr) -> Option<String> { s.mask_password().try_to_dedicated_string().ok().map(String::from) }
}
