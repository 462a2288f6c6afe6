//! Percent-encoding and decoding.
#[cfg(feature = "alloc")]
use alloc::string::{String, ToString};
use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
use iri_string::percent_encode::PercentEncoded;
use iri_string::spec::{IriSpec, UriSpec};

macro_rules! enc { ($($m:ident $s:ident),*) => { $( pub mod $m {
    use super::*;
    #[cfg(feature = "alloc")] pub fn r_reg_name_sb(s: &str) -> String { PercentEncoded::<_, $s>::from_reg_name(s).to_string() }
    #[cfg(feature = "alloc")] pub fn r_user_sb(s: &str) -> String { PercentEncoded::<_, $s>::from_user(s).to_string() }
    #[cfg(feature = "alloc")] pub fn r_password_sb(s: &str) -> String { PercentEncoded::<_, $s>::from_password(s).to_string() }
    #[cfg(feature = "alloc")] pub fn r_path_segment_sb(s: &str) -> String { PercentEncoded::<_, $s>::from_path_segment(s).to_string() }
    #[cfg(feature = "alloc")] pub fn r_path_sb(s: &str) -> String { PercentEncoded::<_, $s>::from_path(s).to_string() }
    #[cfg(feature = "alloc")] pub fn r_query_sb(s: &str) -> String { PercentEncoded::<_, $s>::from_query(s).to_string() }
    #[cfg(feature = "alloc")] pub fn r_fragment_sb(s: &str) -> String { PercentEncoded::<_, $s>::from_fragment(s).to_string() }
    #[cfg(feature = "alloc")] pub fn r_unreserve_sb(s: &str) -> String { PercentEncoded::<_, $s>::unreserve(s).to_string() }
    #[cfg(feature = "alloc")] pub fn r_characters_sb(s: &str) -> String { PercentEncoded::<_, $s>::characters(s).to_string() }
} )* } }
enc!(pe_u UriSpec, pe_i IriSpec);

pub fn r_not_yet_decoded(s: &[u8]) -> &[u8] { decode_whatwg_bytes(s).not_yet_decoded() }
pub fn r_to_bytes(s: &[u8]) -> Option<&[u8]> { decode_whatwg_bytes(s).to_bytes() }
#[cfg(feature = "alloc")]
pub fn r_into_bytes_sb(s: &[u8]) -> alloc::vec::Vec<u8> { decode_whatwg_bytes(s).into_bytes().into_owned() }
/// kind and text of the first fragment, and the rest
pub fn r_fragment_next(s: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let mut i = decode_whatwg_bytes(s).bytes_fragments();
    let f = i.next()?;
    let r = i.not_yet_decoded();
    Some(match f {
        DecodedFragment::Direct(x) => (0, x, r),
        DecodedFragment::StrayPercent => (1, &[], r),
        DecodedFragment::DecodedByte(_) => (2, &[], r),
    })
}
#[cfg(feature = "alloc")]
pub fn r_fragment_byte_sb(s: &[u8]) -> Option<alloc::vec::Vec<u8>> {
    match decode_whatwg_bytes(s).bytes_fragments().next()? {
        DecodedFragment::DecodedByte(b) => {
            let mut v = alloc::vec::Vec::new();
            v.push(b);
            Some(v)
        }
        _ => None,
    }
}
